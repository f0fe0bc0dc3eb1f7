From a3985d726346b5d9c0ecdfbab45ed72bcf202380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:57 +0000
Subject: [PATCH 01/49] fix: creating a missing level lump panicked on names
 shorter than 8 bytes

---
 wad.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wad.go b/wad.go
index 4b59b29..f94d0d0 100644
--- a/wad.go
+++ b/wad.go
@@ -254,7 +254,7 @@ func UpdateDirectoryAndSchedule(le []LumpEntry, scheduleRoot **ScheduledLump,
 							FilePos: 0,
 							Size:    0,
 						}
-						copy(leOut[curOut].Name[:], []byte(LUMP_SORT_ORDER[key])[:8])
+						copy(leOut[curOut].Name[:], LUMP_SORT_ORDER[key])
 						oldIdxsToNew[-1*inss] = curOut
 						curOut++
 						inss++
-- 
2.43.0


From 62e5e9d9bd4f95b17380e97b6ebe3931d2a229b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:25 +0000
Subject: [PATCH 02/49] fix: duplicate level lumps and SCRIPTS no longer
 corrupt lump #0 or lose data

---
 wad.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/wad.go b/wad.go
index f94d0d0..e6b79a9 100644
--- a/wad.go
+++ b/wad.go
@@ -26,7 +26,7 @@ import (
 	"os"
 )
 
-var LUMP_SORT_ORDER = []string{"THINGS", "LINEDEFS", "SIDEDEFS", "VERTEXES", "SEGS", "SSECTORS", "NODES", "SECTORS", "REJECT", "BLOCKMAP", "BEHAVIOR"}
+var LUMP_SORT_ORDER = []string{"THINGS", "LINEDEFS", "SIDEDEFS", "VERTEXES", "SEGS", "SSECTORS", "NODES", "SECTORS", "REJECT", "BLOCKMAP", "BEHAVIOR", "SCRIPTS"}
 var LUMP_MUSTEXIST = []string{"THINGS", "LINEDEFS", "SIDEDEFS", "VERTEXES", "SECTORS"}
 var LUMP_CREATE = []string{"SEGS", "SSECTORS", "NODES", "REJECT", "BLOCKMAP"}
 
@@ -264,9 +264,24 @@ func UpdateDirectoryAndSchedule(le []LumpEntry, scheduleRoot **ScheduledLump,
 						curOut++
 					} // else can happen - BEHAVIOR is HEXEN-specific, not needs to be present otherwise
 				}
+				keptLumps := make([]*ScheduledLump, 0, len(scheduleEntry.Level))
 				for _, subEntry := range scheduleEntry.Level {
-					subEntry.DirIndex = oldIdxsToNew[subEntry.DirIndex]
+					newIdx, kept := oldIdxsToNew[subEntry.DirIndex]
+					if !kept {
+						// A duplicate that has no entry in the output. The
+						// directory size was already adjusted for it, unless
+						// it is one of optional lumps
+						switch string(ByteSliceBeforeTerm(le[subEntry.DirIndex].Name[:])) {
+						case "BEHAVIOR", "SCRIPTS":
+							nSize--
+							deltaCur--
+						}
+						continue
+					}
+					subEntry.DirIndex = newIdx
+					keptLumps = append(keptLumps, subEntry)
 				}
+				scheduleEntry.Level = keptLumps
 			} else {
 				// Level is not valid, cannot be processed, will copy verbatim.
 				// To do this, a level record in schedule needs to be converted
-- 
2.43.0


From 379128a18e03624adcce1aac022f1f675594ecb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:25 +0000
Subject: [PATCH 03/49] fix: computing the output directory no longer shifts
 lump references of the pinned input wad

---
 wad.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/wad.go b/wad.go
index e6b79a9..e8414f1 100644
--- a/wad.go
+++ b/wad.go
@@ -528,6 +528,13 @@ func cloneSchedule(scheduleRoot *ScheduledLump) *ScheduledLump {
 	rootSch := newSch
 	for sch != nil {
 		*newSch = *sch
+		if sch.Level != nil {
+			newSch.Level = make([]*ScheduledLump, len(sch.Level))
+			for i, subEntry := range sch.Level {
+				newSub := *subEntry
+				newSch.Level[i] = &newSub
+			}
+		}
 		if sch.Next != nil {
 			newSch.Next = &ScheduledLump{}
 			newSch = newSch.Next
-- 
2.43.0


From 38822e8e25dd704ef806eadd42a7a1f08905556f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:25 +0000
Subject: [PATCH 04/49] fix: zero-filled reject size is found after the
 directory was resized

---
 level.go | 2 +-
 wad.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/level.go b/level.go
index 5870a50..69409e3 100755
--- a/level.go
+++ b/level.go
@@ -112,7 +112,7 @@ func (l *Level) DoLevel(le []LumpEntry, idx int, rejectsize map[int]uint32,
 		if bytes.Equal(bname, []byte("REJECT")) && config.Reject != REJECT_DONTTOUCH {
 			l.RejectLumpIdx = idx
 			if config.Reject == REJECT_ZEROFILLED {
-				calcrejectsize, leidx_ok := rejectsize[action.DirIndex]
+				calcrejectsize, leidx_ok := rejectsize[action.id]
 				if !leidx_ok {
 					panic("Rejectsize was not stored for key = <level marker lump DirIndex>")
 				}
diff --git a/wad.go b/wad.go
index e8414f1..97eed9e 100644
--- a/wad.go
+++ b/wad.go
@@ -457,7 +457,7 @@ func LoadWadDirectory(isInputWad bool, le []LumpEntry, rejectsize map[int]uint32
 			fracBytes := float64(numSectors) * float64(numSectors) / 8.0
 			numRejectSize := uint32(math.Ceil(fracBytes))
 			troll.AddSize(numRejectSize)
-			rejectsize[action.DirIndex] = numRejectSize
+			rejectsize[action.id] = numRejectSize
 		}
 	}
 
-- 
2.43.0


From d0082ea7518923cacce840a6538b13ea5c825e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:34 +0000
Subject: [PATCH 05/49] fix: reject of a level without two-sided lines between
 sectors was all-hidden instead of zero-filled

---
 reject.go     | 6 ++++++
 rejectFAST.go | 6 ++++++
 rejectSYMM.go | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/reject.go b/reject.go
index 745a7e4..7fc7f3c 100755
--- a/reject.go
+++ b/reject.go
@@ -840,6 +840,12 @@ func (r *RejectWork) setupLines(rsetup *RejectInternalSetup) (setupDone bool,
 	r.solidLines = r.solidLines[:numSolidLines]
 	r.transLines = r.transLines[:numTransLines]
 	r.seenLines = make([]uint8, numSolidLines>>3+1)
+	if numTransLines == 0 {
+		// message below promises zero-filled reject
+		for i := range r.rejectTable {
+			r.rejectTable[i] = VIS_VISIBLE
+		}
+	}
 	// the second return value (message) will be displayed if numTransLines == 0
 	return numTransLines > 0, "Reject builder: not a single two-sided linedef between two distinct sectors was found. You will have a zero-filled REJECT.\n"
 }
diff --git a/rejectFAST.go b/rejectFAST.go
index b6886c5..ba11544 100755
--- a/rejectFAST.go
+++ b/rejectFAST.go
@@ -482,6 +482,12 @@ func (r *FastRejectWork) setupLines(rsetup *RejectInternalSetup) (setupDone bool
 	r.solidLines = r.solidLines[:numSolidLines]
 	r.transLines = r.transLines[:numTransLines]
 	r.seenLines = make([]uint8, numSolidLines>>3+1)
+	if numTransLines == 0 {
+
+		for i := range r.rejectTable {
+			r.rejectTable[i] = VIS_VISIBLE
+		}
+	}
 
 	return numTransLines > 0, "Reject builder: not a single two-sided linedef between two distinct sectors was found. You will have a zero-filled REJECT.\n"
 }
diff --git a/rejectSYMM.go b/rejectSYMM.go
index b8cec01..fafff95 100755
--- a/rejectSYMM.go
+++ b/rejectSYMM.go
@@ -430,6 +430,12 @@ func (r *SymmetricRejectWork) setupLines(rsetup *RejectInternalSetup) (setupDone
 	r.solidLines = r.solidLines[:numSolidLines]
 	r.transLines = r.transLines[:numTransLines]
 	r.seenLines = make([]uint8, numSolidLines>>3+1)
+	if numTransLines == 0 {
+
+		for i := range r.rejectTable {
+			r.rejectTable[i] = VIS_VISIBLE
+		}
+	}
 
 	return numTransLines > 0, "Reject builder: not a single two-sided linedef between two distinct sectors was found. You will have a zero-filled REJECT.\n"
 }
-- 
2.43.0


From e8739a440c9b85248ffe6fbddf10187ee02c9768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:12 +0000
Subject: [PATCH 06/49] fix: directory overlapped header or lump data with -rz
 and an empty first lump

When the first lump is empty and at most 8 zero bytes were still needed, the
directory was moved back by 8-n bytes rather than by the n bytes that were no
longer going to be inserted.
---
 vigilantbsp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vigilantbsp.go b/vigilantbsp.go
index ef5d7b8..e78fec4 100755
--- a/vigilantbsp.go
+++ b/vigilantbsp.go
@@ -213,7 +213,7 @@ func main() {
 		if zerosToInsert > 8 {
 			zerosToInsert = uint32(zerosToInsert - 8)
 		} else {
-			decr = 8 - zerosToInsert // how much to move directory back
+			decr = zerosToInsert // how much to move directory back
 			zerosToInsert = 0
 		}
 		wh.DirectoryStart = wh.DirectoryStart - decr
-- 
2.43.0


From 123e26c902182532161018fbcc2c51dec651fb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:07 +0000
Subject: [PATCH 07/49] fix: BSPNOSEG on the back sidedef was looked up on the
 front sidedef

The back sidedef of a linedef lost its seg because of the front sidedef's lower
texture, and a linedef with only a back sidedef crashed the node builder.
---
 node_intro.go | 2 +-
 znodegen.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/node_intro.go b/node_intro.go
index 8b46ac3..5e4dced 100755
--- a/node_intro.go
+++ b/node_intro.go
@@ -346,7 +346,7 @@ func addSegsPerLine(myVertices []NodeVertex, i uint16, lines WriteableLines, vid
 		Log.Printf("Warning: linedef %d doesn't have front sidedef\n", i)
 	}
 	if secondSdef != SIDEDEF_NONE {
-		if !bytes.Equal(sidedefs[firstSdef].LoName[:], []byte("BSPNOSEG")) {
+		if !bytes.Equal(sidedefs[secondSdef].LoName[:], []byte("BSPNOSEG")) {
 			// Action = 1084 is do not render back side (zokumbsp)
 			if action == 1084 {
 				Log.Verbose(1, "Will not create seg for BACK sidedef of linedef %d - instructed so by action's numeric code set to 1084 on linedef.\n",
diff --git a/znodegen.go b/znodegen.go
index 40f11f7..2228021 100755
--- a/znodegen.go
+++ b/znodegen.go
@@ -1487,7 +1487,7 @@ func ZExt_addSegsPerLine(myVertices []ZExt_NodeVertex, i uint16, lines Writeable
 		Log.Printf("Warning: linedef %d doesn't have front sidedef\n", i)
 	}
 	if secondSdef != SIDEDEF_NONE {
-		if !bytes.Equal(sidedefs[firstSdef].LoName[:], []byte("BSPNOSEG")) {
+		if !bytes.Equal(sidedefs[secondSdef].LoName[:], []byte("BSPNOSEG")) {
 
 			if action == 1084 {
 				Log.Verbose(1, "Will not create seg for BACK sidedef of linedef %d - instructed so by action's numeric code set to 1084 on linedef.\n",
-- 
2.43.0


From d4e7a882f44a76bebec984c2b66628ae46f74873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:00 +0000
Subject: [PATCH 08/49] fix: multi-tree crashed on levels without lines of the
 kind requested for root

---
 multitree_plain.go | 6 ++++++
 znodegen.go        | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/multitree_plain.go b/multitree_plain.go
index ce1bc53..d0210cd 100755
--- a/multitree_plain.go
+++ b/multitree_plain.go
@@ -134,6 +134,12 @@ func MTPSentinel_MakeBestBSPTree(w *NodesWork, bbox *NodeBounds,
 		// not a good API, admittedly
 		rootSegCandidates = MTP_ZenRootEnumerate(w, bbox)
 	}
+	// The level may have no line of the requested kind, every line is tried then
+	if len(rootSegCandidates) == 0 {
+		Log.Printf("Multi-tree: no linedefs of the requested kind to try for root, trying all of them.\n")
+		rootSegCandidates = MTPSentinel_GetRootSegCandidates(w.allSegs,
+			MROOT_EVERY)
+	}
 	// whether vanilla nodes format is required or preferred, AND we should be
 	// choosing best tree among specifically vanilla whenever any vanilla-compatible
 	// tree exists
diff --git a/znodegen.go b/znodegen.go
index 2228021..d0022e4 100755
--- a/znodegen.go
+++ b/znodegen.go
@@ -4283,6 +4283,12 @@ func ZExt_MTPSentinel_MakeBestBSPTree(w *ZExt_NodesWork, bbox *NodeBounds,
 		rootSegCandidates = ZExt_MTP_ZenRootEnumerate(w, bbox)
 	}
 
+	if len(rootSegCandidates) == 0 {
+		Log.Printf("Multi-tree: no linedefs of the requested kind to try for root, trying all of them.\n")
+		rootSegCandidates = ZExt_MTPSentinel_GetRootSegCandidates(w.allSegs,
+			MROOT_EVERY)
+	}
+
 	vanillaBias := w.nodeType == NODETYPE_VANILLA && !config.Ableist
 
 	strictVanillaBias := vanillaBias && oldNodeType == NODETYPE_VANILLA
-- 
2.43.0


From b7bb87d8b2ddfdd5a39b74487b36a3cac5b4ed4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:46 +0000
Subject: [PATCH 09/49] fix: moving the largest subsector's segs crashed when
 it straddled index 65535

---
 node_outro.go | 4 ++--
 znodegen.go   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/node_outro.go b/node_outro.go
index 9cd7243..7544ed1 100755
--- a/node_outro.go
+++ b/node_outro.go
@@ -145,8 +145,8 @@ func (w *NodesWork) fitSegsToTarget(maxSegIndex uint16, dryRun bool) (bool, int)
 			w.subsectors[biggestSubsector-1].SegCount
 	}
 
-	pivot := w.subsectors[biggestSubsector].FirstSeg
-	pivot2 := pivot + w.subsectors[biggestSubsector].SegCount
+	pivot := int(w.subsectors[biggestSubsector].FirstSeg)
+	pivot2 := pivot + int(w.subsectors[biggestSubsector].SegCount) // may exceed 65535
 	// Move pivot:pivot2 subslice to the end of w.segs slice
 	w.segs = append(w.segs[:pivot], append(w.segs[pivot2:], w.segs[pivot:pivot2]...)...)
 	for i := biggestSubsector + 1; i < len(w.subsectors); i++ {
diff --git a/znodegen.go b/znodegen.go
index d0022e4..1385851 100755
--- a/znodegen.go
+++ b/znodegen.go
@@ -1963,8 +1963,8 @@ func (w *ZExt_NodesWork) fitSegsToTarget(maxSegIndex uint16, dryRun bool) (bool,
 			w.subsectors[biggestSubsector-1].SegCount
 	}
 
-	pivot := w.subsectors[biggestSubsector].FirstSeg
-	pivot2 := pivot + w.subsectors[biggestSubsector].SegCount
+	pivot := int(w.subsectors[biggestSubsector].FirstSeg)
+	pivot2 := pivot + int(w.subsectors[biggestSubsector].SegCount)
 
 	w.segs = append(w.segs[:pivot], append(w.segs[pivot2:], w.segs[pivot:pivot2]...)...)
 	for i := biggestSubsector + 1; i < len(w.subsectors); i++ {
-- 
2.43.0


From d95372157613c5f7342805c48c3538dae944e49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:00 +0000
Subject: [PATCH 10/49] fix: reject swapped only local pointers when one line
 bisects the other

---
 reject.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reject.go b/reject.go
index 7fc7f3c..ee8ce35 100755
--- a/reject.go
+++ b/reject.go
@@ -1601,7 +1601,7 @@ func adjustLinePair(src, tgt *TransLine, bisects *bool) bool {
 	// Make sure that src doesn't bi-sect tgt
 	if ((y1 > 0) && (y2 < 0)) || ((y1 < 0) && (y2 > 0)) {
 		// Swap src & tgt then recalculate the endpoints
-		src, tgt = tgt, src
+		*src, *tgt = *tgt, *src
 
 		y1 = src.DX*(tgt.start.Y-src.start.Y) - src.DY*(tgt.start.X-src.start.X)
 		y2 = src.DX*(tgt.end.Y-src.start.Y) - src.DY*(tgt.end.X-src.start.X)
-- 
2.43.0


From 3bd7a18a17960dd31272cd2835e0a945d889f2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:18 +0000
Subject: [PATCH 11/49] fix: blockmap builder kept running after delivering an
 early result

---
 blockmapgen.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/blockmapgen.go b/blockmapgen.go
index 6f65a5b..2d206a6 100755
--- a/blockmapgen.go
+++ b/blockmapgen.go
@@ -128,6 +128,7 @@ func BlockmapGenerator(input BlockmapInput, where chan<- []byte,
 			// fitting blockmap might have already been found
 			Blockmap_ReportTime(start, subsetMode)
 			where <- data
+			return
 		}
 	} // else must be that one fixed offset mode
 
@@ -177,6 +178,7 @@ func BlockmapGenerator(input BlockmapInput, where chan<- []byte,
 			if data != nil {
 				Blockmap_ReportTime(start, subsetMode)
 				where <- data
+				return
 			}
 			bm := CreateBlockmap(&input)
 			if subsetMode != BSUBSET_NOCOMPRESSION {
-- 
2.43.0


From 224b0c53d1020de7c750867aba33880bca054b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:01 +0000
Subject: [PATCH 12/49] fix: levels without sectors or sidedefs lost their
 lumps and left builders waiting

---
 level.go | 40 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 36 insertions(+), 4 deletions(-)

diff --git a/level.go b/level.go
index 69409e3..1b004a5 100755
--- a/level.go
+++ b/level.go
@@ -403,26 +403,58 @@ func (l *Level) DoLevel(le []LumpEntry, idx int, rejectsize map[int]uint32,
 	// All lumps belonging to this level were read from source
 	// Code from here is executed ONCE for entire level
 
-	// If either reject or nodes not used, we need to shutdown solid-only
-	// blockmap builder control on their behalf here
-	if bcontrol != nil && rejectSkip {
+	// If either reject or nodes not used (or couldn't be built), we need to
+	// shutdown solid-only blockmap builder control on their behalf here
+	if bcontrol != nil && l.RejectChan == nil {
 		bcontrol <- BconRequest{
 			Sender:  SOLIDBLOCKS_REJECT,
 			Message: BCON_NONEED_SOLID_BLOCKMAP,
 		}
 	}
-	if bcontrol != nil && !config.RebuildNodes {
+	if bcontrol != nil && l.NodesChan == nil {
 		bcontrol <- BconRequest{
 			Sender:  SOLIDBLOCKS_NODES,
 			Message: BCON_NONEED_SOLID_BLOCKMAP,
 		}
 	}
 
+	// Lumps that should have been rebuilt, but the level is lacking something
+	// needed for that (has no sectors, for example), are kept as they were
+	if config.RebuildNodes && l.NodesChan == nil {
+		if l.newLines != nil {
+			// blockmap might be referencing renumbered lines
+			l.wriBus.SendGenericLump(l.newLines.GetLinedefs(),
+				l.LinedefsLumpIdx, "", "")
+		} else {
+			l.copyOriginalLump(le, l.LinedefsLumpIdx, f)
+		}
+		l.copyOriginalLump(le, l.VerticesLumpIdx, f)
+		l.copyOriginalLump(le, l.SegsLumpIdx, f)
+		l.copyOriginalLump(le, l.SSectorsLumpIdx, f)
+		l.copyOriginalLump(le, l.NodesLumpIdx, f)
+	}
+	if !rejectSkip && l.RejectChan == nil {
+		l.copyOriginalLump(le, l.RejectLumpIdx, f)
+	}
+	if config.RebuildBlockmap && l.BlockmapLumpChannel == nil {
+		l.copyOriginalLump(le, l.BlockmapLumpIdx, f)
+	}
+
 	// Wait for channels to deliver results of node/reject/blockmap building,
 	// write them
 	l.WaitForAndWriteData()
 }
 
+// Copies lump of current level from source file as is
+func (l *Level) copyOriginalLump(le []LumpEntry, idx int, f *os.File) {
+	if idx == 0 { // not present in level
+		return
+	}
+	tmpBuf := make([]byte, le[idx].Size)
+	f.ReadAt(tmpBuf, int64(le[idx].FilePos))
+	l.wriBus.SendRawLump(tmpBuf, idx, "", "")
+}
+
 // This will receive results of work from other threads via channels, then write
 // them. If deterministic, lump data is written in strict order. Otherwise it is
 // written in the order it was received
-- 
2.43.0


From 9cd34ffabc1890746ee83c12652137cd00a52415 Mon Sep 17 00:00:00 2001
From: a <a@b>
Date: Thu, 19 Nov 2026 18:44:01 +0000
Subject: [PATCH 13/49] fix: read and write errors were ignored and incomplete
 output replaced the input

---
 filecontrol.go |  9 +++++++++
 level.go       | 54 ++++++++++++++++++++------------------------------
 lumpwrite.go   | 28 +++++++++++++++++++-------
 udmf_level.go  |  5 ++---
 vigilantbsp.go | 24 +++++++++++++---------
 wad.go         | 32 +++++++++++++++++++++++++-----
 writebus.go    | 18 ++++++++++-------
 7 files changed, 106 insertions(+), 64 deletions(-)

diff --git a/filecontrol.go b/filecontrol.go
index b573f5b..a7dd8eb 100644
--- a/filecontrol.go
+++ b/filecontrol.go
@@ -196,6 +196,15 @@ func (fc *FileControl) tempFileReplacesInput() bool {
 	return success
 }
 
+// Fail is called from main goroutine when input couldn't be read or output
+// couldn't be written. Reports the error, deletes temporary file if there is one
+// and stops the program, so that incomplete data never replaces the input file
+func (fc *FileControl) Fail(s string, a ...interface{}) {
+	Log.Error(s, a...)
+	fc.Shutdown()
+	os.Exit(1)
+}
+
 // Ensures we close all files when program exits. Temporary file is getting
 // deleted at this moment
 func (fc *FileControl) Shutdown() {
diff --git a/level.go b/level.go
index 1b004a5..299dfda 100755
--- a/level.go
+++ b/level.go
@@ -147,47 +147,40 @@ func (l *Level) DoLevel(le []LumpEntry, idx int, rejectsize map[int]uint32,
 					// lines, etc. when building nodes.
 					cntLinedefs := le[idx].Size / DOOM_LINEDEF_SIZE
 					linedefs = make([]Linedef, cntLinedefs, cntLinedefs)
-					f.Seek(int64(le[idx].FilePos), 0)
-					binary.Read(f, binary.LittleEndian, linedefs)
+					DecodeLumpOrFail(f, &le[idx], linedefs, fileControl)
 				} else { // FORMAT_HEXEN
 					cntLinedefs := le[idx].Size / HEXEN_LINEDEF_SIZE
 					hexenLinedefs = make([]HexenLinedef, cntLinedefs, cntLinedefs)
-					f.Seek(int64(le[idx].FilePos), 0)
-					binary.Read(f, binary.LittleEndian, hexenLinedefs)
+					DecodeLumpOrFail(f, &le[idx], hexenLinedefs, fileControl)
 				}
 				copyLump = !config.RebuildNodes // !!! linedefs' vertices might be renumbered by nodes builder
 			} else if bytes.Equal(bname, []byte("VERTEXES")) {
 				l.VerticesLumpIdx = idx
 				cntVertices := le[idx].Size >> 2
 				vertices = make([]Vertex, cntVertices, cntVertices)
-				f.Seek(int64(le[idx].FilePos), 0)
-				binary.Read(f, binary.LittleEndian, vertices)
+				DecodeLumpOrFail(f, &le[idx], vertices, fileControl)
 				// bounds
 				bounds = GetBounds(vertices)
 				copyLump = !config.RebuildNodes // vertices are created and renumbered by nodes builder
 			} else if bytes.Equal(bname, []byte("SIDEDEFS")) {
 				cntSidedefs := le[idx].Size / DOOM_SIDEDEF_SIZE
 				sidedefs = make([]Sidedef, cntSidedefs, cntSidedefs)
-				f.Seek(int64(le[idx].FilePos), 0)
-				binary.Read(f, binary.LittleEndian, sidedefs)
+				DecodeLumpOrFail(f, &le[idx], sidedefs, fileControl)
 				// this is kept intact, for now at least
 			} else if bytes.Equal(bname, []byte("SECTORS")) {
 				cntSectors := le[idx].Size / DOOM_SECTOR_SIZE
 				sectors = make([]Sector, cntSectors, cntSectors)
-				f.Seek(int64(le[idx].FilePos), 0)
-				binary.Read(f, binary.LittleEndian, sectors)
+				DecodeLumpOrFail(f, &le[idx], sectors, fileControl)
 				// this is kept intact
 			} else if action.LevelFormat == FORMAT_HEXEN && bytes.Equal(bname, []byte("THINGS")) {
 				vrThing := HexenThing{}
 				cntThings := le[idx].Size / uint32(binary.Size(vrThing))
 				hexenThings = make([]HexenThing, cntThings, cntThings)
-				f.Seek(int64(le[idx].FilePos), 0)
-				binary.Read(f, binary.LittleEndian, hexenThings)
+				DecodeLumpOrFail(f, &le[idx], hexenThings, fileControl)
 			} // this is kept intact
 			// copy along every entry that is not going to be modified
 			if copyLump {
-				tmpBuf := make([]byte, le[idx].Size, le[idx].Size)
-				f.ReadAt(tmpBuf, int64(le[idx].FilePos))
+				tmpBuf := ReadLumpOrFail(f, &le[idx], fileControl)
 				wriBus.SendRawLump(tmpBuf, idx, "", "")
 			}
 		}
@@ -426,18 +419,18 @@ func (l *Level) DoLevel(le []LumpEntry, idx int, rejectsize map[int]uint32,
 			l.wriBus.SendGenericLump(l.newLines.GetLinedefs(),
 				l.LinedefsLumpIdx, "", "")
 		} else {
-			l.copyOriginalLump(le, l.LinedefsLumpIdx, f)
+			l.copyOriginalLump(le, l.LinedefsLumpIdx, f, fileControl)
 		}
-		l.copyOriginalLump(le, l.VerticesLumpIdx, f)
-		l.copyOriginalLump(le, l.SegsLumpIdx, f)
-		l.copyOriginalLump(le, l.SSectorsLumpIdx, f)
-		l.copyOriginalLump(le, l.NodesLumpIdx, f)
+		l.copyOriginalLump(le, l.VerticesLumpIdx, f, fileControl)
+		l.copyOriginalLump(le, l.SegsLumpIdx, f, fileControl)
+		l.copyOriginalLump(le, l.SSectorsLumpIdx, f, fileControl)
+		l.copyOriginalLump(le, l.NodesLumpIdx, f, fileControl)
 	}
 	if !rejectSkip && l.RejectChan == nil {
-		l.copyOriginalLump(le, l.RejectLumpIdx, f)
+		l.copyOriginalLump(le, l.RejectLumpIdx, f, fileControl)
 	}
 	if config.RebuildBlockmap && l.BlockmapLumpChannel == nil {
-		l.copyOriginalLump(le, l.BlockmapLumpIdx, f)
+		l.copyOriginalLump(le, l.BlockmapLumpIdx, f, fileControl)
 	}
 
 	// Wait for channels to deliver results of node/reject/blockmap building,
@@ -446,13 +439,12 @@ func (l *Level) DoLevel(le []LumpEntry, idx int, rejectsize map[int]uint32,
 }
 
 // Copies lump of current level from source file as is
-func (l *Level) copyOriginalLump(le []LumpEntry, idx int, f *os.File) {
+func (l *Level) copyOriginalLump(le []LumpEntry, idx int, f *os.File,
+	fileControl *FileControl) {
 	if idx == 0 { // not present in level
 		return
 	}
-	tmpBuf := make([]byte, le[idx].Size)
-	f.ReadAt(tmpBuf, int64(le[idx].FilePos))
-	l.wriBus.SendRawLump(tmpBuf, idx, "", "")
+	l.wriBus.SendRawLump(ReadLumpOrFail(f, &le[idx], fileControl), idx, "", "")
 }
 
 // This will receive results of work from other threads via channels, then write
@@ -652,16 +644,12 @@ func (l *Level) handleRejectNagging(nagger *RejectNagger) []byte {
 		Log.Error("Original reject lump is incorrect size, must have had different number of sectors\n")
 		return declineRejectNagging(nagger)
 	}
-	rejBytes := make([]byte, rej.Size)
-	atPos := int64(rej.FilePos)
+	var rejBytes []byte
 	if nagger.currentWadAndMap {
-		n, err := l.f.ReadAt(rejBytes, atPos)
-		if err != nil || n < int(rej.Size) {
-			Log.Error("Failed to read original reject lump\n")
-			return declineRejectNagging(nagger)
-		}
+		rejBytes = ReadLumpOrFail(l.f, rej, l.fc)
 	} else {
-		n, err := exWad.readerAt.ReadAt(rejBytes, atPos)
+		rejBytes = make([]byte, rej.Size)
+		n, err := exWad.readerAt.ReadAt(rejBytes, int64(rej.FilePos))
 		if err != nil || n < int(rej.Size) {
 			Log.Error("Failed to read original reject lump\n")
 			return declineRejectNagging(nagger)
diff --git a/lumpwrite.go b/lumpwrite.go
index fe02e47..c722725 100755
--- a/lumpwrite.go
+++ b/lumpwrite.go
@@ -30,9 +30,12 @@ import (
 // as a valid byte array (also already converted to file endianness) ready to be
 // written
 func WriteSliceLump(data []byte, curPos *uint32, fout *os.File, le []LumpEntry,
-	lumpIdx int, s string, postfix string) {
+	lumpIdx int, s string, postfix string) error {
 	if data != nil {
-		fout.Write(data)
+		_, err := fout.Write(data)
+		if err != nil {
+			return err
+		}
 	}
 	le[lumpIdx].FilePos = *curPos
 	le[lumpIdx].Size = uint32(len(data))
@@ -45,14 +48,18 @@ func WriteSliceLump(data []byte, curPos *uint32, fout *os.File, le []LumpEntry,
 			s, postfix, le[lumpIdx].Size, hashSuffix)
 	}
 	*curPos = *curPos + uint32(len(data))
+	return nil
 }
 
 // Write lump from a typed array of structures that represent game data but need
 // conversion before going to file
 func ConvertAndWriteGenericLump(data interface{}, curPos *uint32, fout *os.File,
-	le []LumpEntry, lumpIdx int, s string, postfix string) {
+	le []LumpEntry, lumpIdx int, s string, postfix string) error {
 	hashSuffix := ""
-	binary.Write(fout, binary.LittleEndian, data)
+	err := binary.Write(fout, binary.LittleEndian, data)
+	if err != nil {
+		return err
+	}
 	if config.HashLumps {
 		hashSuffix = fmt.Sprintf(" (HASH: %s)", HashIntf(data))
 	}
@@ -62,13 +69,19 @@ func ConvertAndWriteGenericLump(data interface{}, curPos *uint32, fout *os.File,
 	Log.Printf("Lump #%d (%s)%s has its size set to %d bytes.%s\n", lumpIdx, s,
 		postfix, le[lumpIdx].Size, hashSuffix)
 	*curPos = *curPos + uint32(dataLen)
+	return nil
 }
 
 func ConvertAndWriteDeepNodes(data []DeepNode, curPos *uint32, fout *os.File,
-	le []LumpEntry, lumpIdx int, s string, postfix string) {
+	le []LumpEntry, lumpIdx int, s string, postfix string) error {
 	hashSuffix := ""
-	sigCnt, _ := fout.Write(DEEPNODES_SIG[:])
-	binary.Write(fout, binary.LittleEndian, data)
+	sigCnt, err := fout.Write(DEEPNODES_SIG[:])
+	if err == nil {
+		err = binary.Write(fout, binary.LittleEndian, data)
+	}
+	if err != nil {
+		return err
+	}
 	if config.HashLumps {
 		hashSuffix = fmt.Sprintf(" (HASH: %s)", HashIntf(data))
 	}
@@ -78,6 +91,7 @@ func ConvertAndWriteDeepNodes(data []DeepNode, curPos *uint32, fout *os.File,
 	Log.Printf("Lump #%d (%s)%s has its size set to %d bytes.%s\n", lumpIdx, s,
 		postfix, le[lumpIdx].Size, hashSuffix)
 	*curPos = *curPos + uint32(dataLen+sigCnt)
+	return nil
 }
 
 // non-threadsafe encode of cryptographic hash, I presume
diff --git a/udmf_level.go b/udmf_level.go
index b08ca86..51cc515 100644
--- a/udmf_level.go
+++ b/udmf_level.go
@@ -45,7 +45,7 @@ func (l *UDMF_Level) DoLevel(le []LumpEntry, idx int, action *ScheduledLump,
 	Log.Printf("(noop) Processing UDMF level %s:\n", l.mapName)
 	textmap, err := LoadTEXTMAP(f, le, action.Level[0])
 	if err != nil {
-		Log.Panic("Couldn't read TEXTMAP: %s\n", err.Error())
+		fileControl.Fail("Couldn't read TEXTMAP: %s\n", err.Error())
 	}
 	// TEXTMAP is written to output file so as not forget it
 	wriBus.SendRawLump(textmap, action.DirIndex, "", "")
@@ -77,8 +77,7 @@ func (l *UDMF_Level) DoLevel(le []LumpEntry, idx int, action *ScheduledLump,
 				// might set copyLump == false
 			}
 			if copyLump {
-				tmpBuf := make([]byte, le[idx].Size, le[idx].Size)
-				f.ReadAt(tmpBuf, int64(le[idx].FilePos))
+				tmpBuf := ReadLumpOrFail(f, &le[idx], fileControl)
 				wriBus.SendRawLump(tmpBuf, idx, "", "")
 			}
 		}
diff --git a/vigilantbsp.go b/vigilantbsp.go
index e78fec4..87e2773 100755
--- a/vigilantbsp.go
+++ b/vigilantbsp.go
@@ -240,15 +240,15 @@ func main() {
 	// in the future, will probably store new wad's header separately
 	err = binary.Write(fout, binary.LittleEndian, wh)
 	if err != nil {
-		Log.Error("An error has occured while trying to create/modify %s: %s\n", outFileName, err)
-		os.Exit(1)
+		mainFileControl.Fail("An error has occured while trying to create/modify %s: %s\n", outFileName, err)
 	}
 
 	if zerosToInsert > 0 {
-		WriteNZerosOrFail(fout, zerosToInsert, outFileName)
+		WriteNZerosOrFail(fout, zerosToInsert, outFileName, &mainFileControl)
 	}
 	// skip directory also
-	WriteNZerosOrFail(fout, uint32(binary.Size(le)), outFileName)
+	WriteNZerosOrFail(fout, uint32(binary.Size(le)), outFileName,
+		&mainFileControl)
 	action := ScheduleRoot
 	curPos := uint32(binary.Size(wh)) + zerosToInsert + uint32(binary.Size(le))
 	wriBus := StartWriteBus(fout, le, curPos)
@@ -265,8 +265,7 @@ func main() {
 		// they are not getting copied in this part
 		idx := action.DirIndex
 		if le[idx].Size != 0 {
-			tmpBuf := make([]byte, le[idx].Size, le[idx].Size)
-			f.ReadAt(tmpBuf, int64(le[idx].FilePos))
+			tmpBuf := ReadLumpOrFail(f, &le[idx], &mainFileControl)
 			wriBus.SendRawLump(tmpBuf, idx, "", "")
 		} else if (idx == 0) && ZeroOffsetFirstLump {
 			// first lump has zero size, if we set zero offset we can steal some bytes
@@ -288,9 +287,16 @@ func main() {
 		}
 		action = action.Next
 	}
-	wriBus.Shutdown()
-	fout.Seek(int64(wh.DirectoryStart), 0)
-	binary.Write(fout, binary.LittleEndian, le)
+	err = wriBus.Shutdown()
+	if err == nil {
+		_, err = fout.Seek(int64(wh.DirectoryStart), 0)
+	}
+	if err == nil {
+		err = binary.Write(fout, binary.LittleEndian, le)
+	}
+	if err != nil {
+		mainFileControl.Fail("An error has occured while trying to write %s: %s\n", outFileName, err)
+	}
 	suc := mainFileControl.Success()
 	if suc {
 		trFileName := outFileName
diff --git a/wad.go b/wad.go
index 97eed9e..8c9eea4 100644
--- a/wad.go
+++ b/wad.go
@@ -102,15 +102,37 @@ func FindValidLevels(root *ScheduledLump) int {
 	return res
 }
 
-func WriteNZerosOrFail(a io.Writer, n uint32, fname string) {
+func WriteNZerosOrFail(a io.Writer, n uint32, fname string, fc *FileControl) {
 	zb := make([]byte, n, n)
 	written, err := a.Write(zb)
 	if err != nil {
-		Log.Error("An error has occured while trying to write %s: %s\n", fname, err)
-		os.Exit(1)
+		fc.Fail("An error has occured while trying to write %s: %s\n", fname, err)
 	} else if uint32(written) != n {
-		Log.Error("The number of written bytes %d doesn't match the number of bytes that were to be written: %d\n", written, n)
-		os.Exit(1)
+		fc.Fail("The number of written bytes %d doesn't match the number of bytes that were to be written: %d\n", written, n)
+	}
+}
+
+// ReadLumpOrFail returns contents of a lump from input file exactly as they are
+func ReadLumpOrFail(f *os.File, entry *LumpEntry, fc *FileControl) []byte {
+	buf := make([]byte, entry.Size)
+	_, err := f.ReadAt(buf, int64(entry.FilePos))
+	if err != nil {
+		fc.Fail("An error has occured while trying to read lump %s: %s\n",
+			ByteSliceBeforeTerm(entry.Name[:]), err)
+	}
+	return buf
+}
+
+// DecodeLumpOrFail reads lump from input file into a slice of structures
+func DecodeLumpOrFail(f *os.File, entry *LumpEntry, data interface{},
+	fc *FileControl) {
+	_, err := f.Seek(int64(entry.FilePos), 0)
+	if err == nil {
+		err = binary.Read(f, binary.LittleEndian, data)
+	}
+	if err != nil {
+		fc.Fail("An error has occured while trying to read lump %s: %s\n",
+			ByteSliceBeforeTerm(entry.Name[:]), err)
 	}
 }
 
diff --git a/writebus.go b/writebus.go
index d9c5317..a5a1ea8 100755
--- a/writebus.go
+++ b/writebus.go
@@ -43,6 +43,7 @@ type WriteBus struct {
 	fout   *os.File
 	le     []LumpEntry
 	curPos uint32
+	err    error // first error, nothing gets written after it
 }
 
 type WriteBusControl struct {
@@ -75,18 +76,18 @@ func (b *WriteBus) WriteBusLoop(ch <-chan WriteBusRequest, chFinish chan<- bool,
 	for req := range ch {
 		switch req.tpeIndex {
 		case WRI_TYPE_BYTES:
-			{
-				WriteSliceLump(req.bData, &(b.curPos), b.fout, b.le, req.lumpIdx,
+			if b.err == nil {
+				b.err = WriteSliceLump(req.bData, &(b.curPos), b.fout, b.le, req.lumpIdx,
 					req.lumpName, req.postfix)
 			}
 		case WRI_TYPE_INTERFACE:
-			{
-				ConvertAndWriteGenericLump(req.intfData, &(b.curPos), b.fout,
+			if b.err == nil {
+				b.err = ConvertAndWriteGenericLump(req.intfData, &(b.curPos), b.fout,
 					b.le, req.lumpIdx, req.lumpName, req.postfix)
 			}
 		case WRI_TYPE_DEEPNODES:
-			{
-				ConvertAndWriteDeepNodes(req.deepData, &(b.curPos), b.fout,
+			if b.err == nil {
+				b.err = ConvertAndWriteDeepNodes(req.deepData, &(b.curPos), b.fout,
 					b.le, req.lumpIdx, req.lumpName, req.postfix)
 			}
 		case WRI_TYPE_SYNC:
@@ -150,9 +151,12 @@ func (c *WriteBusControl) SendDeepNodesLump(data []DeepNode, lumpIdx int,
 	c.ch <- envl
 }
 
-func (c *WriteBusControl) Shutdown() {
+// Shutdown waits for everything to be written, and returns an error if something
+// couldn't be
+func (c *WriteBusControl) Shutdown() error {
 	close(c.ch)
 	<-c.finisher
+	return c.bus.err
 }
 
 // This service call is needed to prevent actions pertaining to the previous
-- 
2.43.0


From 652fee64b09ade0e53b0911ce1fae37f1a14385b Mon Sep 17 00:00:00 2001
From: a <a@b>
Date: Thu, 19 Nov 2026 18:44:03 +0000
Subject: [PATCH 14/49] fix: failure to replace the input deleted the only good
 copy and was reported with exit status 0

---
 filecontrol.go | 19 +++++++++++++------
 vigilantbsp.go |  4 ++++
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/filecontrol.go b/filecontrol.go
index a7dd8eb..646913b 100644
--- a/filecontrol.go
+++ b/filecontrol.go
@@ -136,7 +136,9 @@ func (fc *FileControl) Success() bool {
 		Log.Panic("Sanity check failed: descriptor invalid.\n")
 	}
 	errFin := fc.fin.Close()
+	fc.fin = nil
 	errFout := fc.fout.Close()
+	fc.fout = nil
 	sucReport := fc.CloseReportFile(true)
 	hasError := errFin != nil || errFout != nil || !sucReport
 	if hasError {
@@ -166,6 +168,7 @@ func (fc *FileControl) tempFileReplacesInput() bool {
 	if errFin != nil {
 		Log.Error("Couldn't reopen the temporarily file to read from it: %s.\n",
 			errFin.Error())
+		os.Remove(fc.outputFileName) // the input file is still intact
 		return false
 	}
 	fout, errFout := os.OpenFile(fc.inputFileName, os.O_CREATE|os.O_RDWR|os.O_TRUNC,
@@ -176,14 +179,18 @@ func (fc *FileControl) tempFileReplacesInput() bool {
 			errFout.Error())
 	} else {
 		_, err := io.Copy(fout, fin)
+		errClose := fout.Close()
+		if err == nil {
+			err = errClose
+		}
 		if err != nil {
-			success = false
-			// FUCK Hope the user has backup for this
-			// TODO may be make backup oneself, I dunno
-			Log.Error("Error when overwriting the original file: %s.\n",
-				err.Error())
+			// The original is already lost, so temporary file, being the only
+			// good copy of data, must stay
+			fin.Close()
+			Log.Error("Error when overwriting the original file: %s. The new wad is kept as '%s'.\n",
+				err.Error(), fc.outputFileName)
+			return false
 		}
-		fout.Close()
 	}
 	fin.Close()
 	// Now delete the temporary file
diff --git a/vigilantbsp.go b/vigilantbsp.go
index 87e2773..f5de5e0 100755
--- a/vigilantbsp.go
+++ b/vigilantbsp.go
@@ -317,6 +317,10 @@ func main() {
 		DumpMemoryProfile(config.MemProfilePath)
 	}
 	Log.Printf("Total time: %s\n", time.Since(timeStart))
+	if !suc {
+		mainFileControl.Shutdown()
+		os.Exit(1)
+	}
 }
 
 func GetBounds(vertices []Vertex) LevelBounds {
-- 
2.43.0


From e5ab118b041e4d1092b6c9743536cb7b9e1c7ff9 Mon Sep 17 00:00:00 2001
From: a <a@b>
Date: Thu, 19 Nov 2026 18:44:28 +0000
Subject: [PATCH 15/49] fix: report file could overwrite the input or output
 wad

---
 filecontrol.go | 11 +++++++++++
 rejectFAST.go  |  3 +--
 rejectRMB.go   |  3 +--
 rejectSYMM.go  |  3 +--
 4 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/filecontrol.go b/filecontrol.go
index 646913b..205e85f 100644
--- a/filecontrol.go
+++ b/filecontrol.go
@@ -99,6 +99,17 @@ func (fc *FileControl) CloseRMBOptionsFile() {
 
 func (fc *FileControl) OpenReportFile() (*os.File, error) {
 	var err error
+	// Neither of wads being processed may be overwritten by report (they might
+	// have .rpt extension, or report file name might be a link to them)
+	f1, err1 := os.Stat(fc.reportFileName)
+	if err1 == nil {
+		for _, wadFileName := range []string{fc.inputFileName, fc.outputFileName} {
+			f2, err2 := os.Stat(wadFileName)
+			if err2 == nil && os.SameFile(f1, f2) {
+				return nil, errors.New("would overwrite wad file " + wadFileName)
+			}
+		}
+	}
 	fc.freport, err = os.OpenFile(fc.reportFileName, os.O_CREATE|os.O_RDWR|os.O_TRUNC,
 		os.ModeExclusive|os.ModePerm)
 	if err != nil {
diff --git a/rejectFAST.go b/rejectFAST.go
index ba11544..7ddcb9a 100755
--- a/rejectFAST.go
+++ b/rejectFAST.go
@@ -1555,9 +1555,8 @@ func (r *FastRejectWork) reportGetWriter() io.Writer {
 	}
 	wri, err := r.fileControl.OpenReportFile()
 	if err != nil {
-		Log.Error("Couldn't create file %s: %s", r.fileControl.reportFileName,
+		Log.Panic("Couldn't create file %s: %s\n", r.fileControl.reportFileName,
 			err.Error())
-		return nil
 	}
 
 	r.printfln(wri, "# %s %s", PROG_CAPIT_NAME, VERSION)
diff --git a/rejectRMB.go b/rejectRMB.go
index 1b65028..1895148 100755
--- a/rejectRMB.go
+++ b/rejectRMB.go
@@ -887,9 +887,8 @@ func (r *RejectWork) reportGetWriter() io.Writer {
 	}
 	wri, err := r.fileControl.OpenReportFile()
 	if err != nil {
-		Log.Error("Couldn't create file %s: %s", r.fileControl.reportFileName,
+		Log.Panic("Couldn't create file %s: %s\n", r.fileControl.reportFileName,
 			err.Error())
-		return nil
 	}
 	// Add a comment line specifying the version of VigilantBSP used to
 	// produce the file. This is so that I might change format in the future,
diff --git a/rejectSYMM.go b/rejectSYMM.go
index fafff95..44dd845 100755
--- a/rejectSYMM.go
+++ b/rejectSYMM.go
@@ -1472,9 +1472,8 @@ func (r *SymmetricRejectWork) reportGetWriter() io.Writer {
 	}
 	wri, err := r.fileControl.OpenReportFile()
 	if err != nil {
-		Log.Error("Couldn't create file %s: %s", r.fileControl.reportFileName,
+		Log.Panic("Couldn't create file %s: %s\n", r.fileControl.reportFileName,
 			err.Error())
-		return nil
 	}
 
 	r.printfln(wri, "# %s %s", PROG_CAPIT_NAME, VERSION)
-- 
2.43.0


From edd511f7cacb247c22d451686132f28ea3e89f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:46 +0000
Subject: [PATCH 16/49] fix: temporary file stayed behind when wad named by
 NOPROCESS couldn't be opened

---
 filecontrol.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/filecontrol.go b/filecontrol.go
index 205e85f..d21de1f 100644
--- a/filecontrol.go
+++ b/filecontrol.go
@@ -460,9 +460,8 @@ func (fc *FileControl) PinExternalWad(wadFileName string) *PinnedWad {
 	// no, it is a new one
 	f, err := fc.OpenExternalFile(wadFileName)
 	if err != nil {
-		Log.Error("An error has occured while trying to open %s: %s\n",
+		fc.Fail("An error has occured while trying to open %s: %s\n",
 			wadFileName, err)
-		os.Exit(1)
 	}
 
 	wh := new(WadHeader)
-- 
2.43.0


From 9c38d1ae31fb842e94b1e68da2179598da762eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:12 +0000
Subject: [PATCH 17/49] fix: command line parser crashed on incomplete -nc and
 on profile options without a file

---
 cmdparser.go | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/cmdparser.go b/cmdparser.go
index 05c03e5..b827882 100755
--- a/cmdparser.go
+++ b/cmdparser.go
@@ -156,19 +156,23 @@ func (c *ProgramConfig) FromCommandLine() bool {
 				if bytes.Equal([]byte(arg), []byte("--cpuprofile")) {
 					// Parameter: write cpu profile to file following this
 					// parameter
-					fileSatisfied = (len(arg) > (argIdx + 1)) &&
+					fileSatisfied = (len(args) > (argIdx + 1)) &&
 						(args[argIdx+1] != "")
-					c.Profile = true
-					c.ProfilePath = args[argIdx+1]
-					skip = true
+					if fileSatisfied {
+						c.Profile = true
+						c.ProfilePath = args[argIdx+1]
+						skip = true
+					}
 				} else if bytes.Equal([]byte(arg), []byte("--memprofile")) {
 					// Parameter: write memory allocations (Go "allocs")
 					// profile to file following this parameter
-					fileSatisfied = (len(arg) > (argIdx + 1)) &&
-						(args[argIdx] != "")
-					c.MemProfile = true
-					c.MemProfilePath = args[argIdx+1]
-					skip = true
+					fileSatisfied = (len(args) > (argIdx + 1)) &&
+						(args[argIdx+1] != "")
+					if fileSatisfied {
+						c.MemProfile = true
+						c.MemProfilePath = args[argIdx+1]
+						skip = true
+					}
 				} else if bytes.Equal([]byte(arg), []byte("--unreversenodes")) {
 					// Parameter: write BSP tree without the traditionally
 					// used reversal, keeping only root node at the last index
@@ -793,6 +797,11 @@ func (c *ProgramConfig) parseNodesParams(p []byte) {
 		case 'c':
 			{
 				displace := 0
+				if len(p) < 3 {
+					Log.Error("NODES format is missing: expected -nc=<letter>, got '%s'.\n", string(p))
+					p = p[:0]
+					continue
+				}
 				if bytes.Equal(p[1:3], []byte("=v")) {
 					c.NodeType = NODETYPE_VANILLA
 				} else if bytes.Equal(p[1:3], []byte("=d")) {
-- 
2.43.0


From 3f3cf80722de51857e6bb097994824ad553ad419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:12 +0000
Subject: [PATCH 18/49] fix: empty argument made the rest of command line
 ignored, including output file

---
 cmdparser.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cmdparser.go b/cmdparser.go
index b827882..cdf3e77 100755
--- a/cmdparser.go
+++ b/cmdparser.go
@@ -43,13 +43,16 @@ func (c *ProgramConfig) FromCommandLine() bool {
 	hasOutputFile := false
 	skip := false
 	for argIdx, arg := range args {
-		if len(arg) < 1 {
-			break
-		}
 		if skip {
 			skip = false
 			continue
 		}
+		if len(arg) < 1 {
+			// The rest of arguments (which may include output file) must not
+			// be silently dropped
+			Log.Error("Empty argument - aborting.\n")
+			return false
+		}
 
 		if arg[0] != '-' && !outputModifier {
 			files = append(files, arg)
-- 
2.43.0


From 01de06e6ebe8b53ac31d5e7c4aab83c3df35f41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:12 +0000
Subject: [PATCH 19/49] fix: options -r and -ba- did not override earlier -r-
 and -ba

---
 cmdparser.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/cmdparser.go b/cmdparser.go
index cdf3e77..8c64083 100755
--- a/cmdparser.go
+++ b/cmdparser.go
@@ -42,6 +42,7 @@ func (c *ProgramConfig) FromCommandLine() bool {
 	outputModifierUsed := false
 	hasOutputFile := false
 	skip := false
+	rejectEnabled := true
 	for argIdx, arg := range args {
 		if skip {
 			skip = false
@@ -107,10 +108,8 @@ func (c *ProgramConfig) FromCommandLine() bool {
 		case 'r':
 			{
 				enabled, rest := isEnabled([]byte(arg)[2:])
-				if !enabled {
-					c.Reject = REJECT_DONTTOUCH
-				}
-				if c.Reject != REJECT_DONTTOUCH {
+				rejectEnabled = enabled
+				if enabled {
 					c.parseRejectParams(rest)
 				} else if len(rest) > 0 {
 					Log.Error("Not rebuilding reject, but had more non-whitespace characters immediately following -r-. They will be ignored.")
@@ -387,6 +386,12 @@ func (c *ProgramConfig) FromCommandLine() bool {
 		Log.Error("You must specify output file (with -o) when you pass --eject parameter")
 		return false
 	}
+	if !rejectEnabled {
+		c.Reject = REJECT_DONTTOUCH
+	}
+	if c.AggressiveSubsets {
+		c.SubsetCompressBlockmap = true
+	}
 	if c.Reject == REJECT_ZEROFILLED && c.UseRMB {
 		// This might change in the future, NOPROCESS and the options that can
 		// be used alongside it could theoretically be useful. The problem is,
@@ -528,7 +533,7 @@ func (c *ProgramConfig) parseBlockmapParams(p []byte) {
 					p = p[2:]
 				} else {
 					on, rest := isEnabled(p[1:])
-					c.SubsetCompressBlockmap = on || c.AggressiveSubsets
+					c.SubsetCompressBlockmap = on
 					p = rest
 				}
 			}
@@ -541,9 +546,6 @@ func (c *ProgramConfig) parseBlockmapParams(p []byte) {
 				} else {
 					on, rest := isEnabled(p[1:])
 					c.AggressiveSubsets = on
-					if on {
-						c.SubsetCompressBlockmap = true
-					}
 					p = rest
 				}
 			}
-- 
2.43.0


From 8e5e3cb91df1dcd94183970625b62de1bbcff6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:43 +0000
Subject: [PATCH 20/49] fix: out of range blockmap offsets and thread counts
 were silently replaced by other values

---
 cmdparser.go | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/cmdparser.go b/cmdparser.go
index 8c64083..ec5b213 100755
--- a/cmdparser.go
+++ b/cmdparser.go
@@ -18,6 +18,7 @@ package main
 
 import (
 	"bytes"
+	"math"
 	"os"
 	"strconv"
 	"strings"
@@ -585,9 +586,9 @@ func (c *ProgramConfig) parseBlockmapParams(p []byte) {
 				if nos.whichType == ARG_DISABLED {
 					nos.value = 1
 				}
-				if nos.whichType != ARG_ENABLED && int16(nos.value) < 0 {
+				if nos.whichType != ARG_ENABLED && (nos.value < 0 || nos.value > math.MaxInt16) {
 					// negative cannot be returned anyway... yet
-					Log.Error("Negative blockmap thread count is not supported - ignoring it.\n")
+					Log.Error("Blockmap thread count is out of range - ignoring it.\n")
 				} else if nos.whichType != ARG_ENABLED {
 					// value of 0 is ok. It's default, "auto" mode
 					c.BlockmapThreads = int16(nos.value)
@@ -638,17 +639,14 @@ func (c *ProgramConfig) parseBlockmapParams(p []byte) {
 					if len(rest) > 0 && rest[0] == ',' {
 						t, v, rest2 := readNumericOnly(rest[1:])
 						rest = rest2
-						if t {
-							if int16(nos.value) >= 0 && int16(v) >= 0 {
-								c.BlockmapOffsetMode = BM_OFFSET_FIXED
-								c.BlockmapXOffset = int16(nos.value)
-								c.BlockmapYOffset = int16(v)
-								handled = true
-							} else {
-								Log.Error("Invalid blockmap offsets were specified, they will be ignored.\n")
-								handled = true
-							}
+						if t && nos.value <= math.MaxInt16 && v <= math.MaxInt16 {
+							c.BlockmapOffsetMode = BM_OFFSET_FIXED
+							c.BlockmapXOffset = int16(nos.value)
+							c.BlockmapYOffset = int16(v)
+						} else {
+							Log.Error("Invalid blockmap offsets were specified, they will be ignored.\n")
 						}
+						handled = true
 					}
 
 				}
@@ -920,9 +918,9 @@ func (c *ProgramConfig) parseNodesParams(p []byte) {
 				if nos.whichType == ARG_DISABLED {
 					nos.value = 1
 				}
-				if nos.whichType != ARG_ENABLED && int16(nos.value) < 0 {
+				if nos.whichType != ARG_ENABLED && (nos.value < 0 || nos.value > math.MaxInt16) {
 					// negative cannot be returned anyway... yet
-					Log.Error("Negative BSP tree thread count is not supported - ignoring it.\n")
+					Log.Error("BSP tree thread count is out of range - ignoring it.\n")
 				} else if nos.whichType != ARG_ENABLED {
 					// value of 0 is ok. It's default, "auto" mode
 					c.NodeThreads = int16(nos.value)
-- 
2.43.0


From a09ff773856c2c43bbccf19a4bf4cb21e6d3ea69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:43 +0000
Subject: [PATCH 21/49] fix: malformed command line arguments were ignored
 without a message

---
 cmdparser.go | 46 ++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 40 insertions(+), 6 deletions(-)

diff --git a/cmdparser.go b/cmdparser.go
index ec5b213..e0b6944 100755
--- a/cmdparser.go
+++ b/cmdparser.go
@@ -75,7 +75,8 @@ func (c *ProgramConfig) FromCommandLine() bool {
 		}
 
 		if len(arg) < 2 {
-			continue
+			Log.Error("Unrecognised argument '%s' - aborting.\n", arg)
+			return false
 		}
 		switch arg[1] {
 		case 'b':
@@ -129,6 +130,9 @@ func (c *ProgramConfig) FromCommandLine() bool {
 					}
 				}
 				c.VerbosityLevel += vs
+				if vs < len(barg) {
+					Log.Error("Syntax error: -v parameter is followed by garbage '%s'.\n", string(barg[vs:]))
+				}
 			}
 		case 'o':
 			{
@@ -202,7 +206,11 @@ func (c *ProgramConfig) FromCommandLine() bool {
 					// Parameter to control whether use more accurate
 					// doLinesIntersect check. Does not affect extended nodes
 					// (they use far more accurate variant always anyway).
-					ns, _ := readNumeric("--detailnodes=", []byte(arg)[len("--detailnodes=")-1:])
+					ns, rest := readNumeric("--detailnodes=", []byte(arg)[len("--detailnodes=")-1:])
+					if len(rest) > 0 {
+						Log.Error("Unrecognised argument '%s' - aborting.\n", arg)
+						return false
+					}
 					if ns.whichType == ARG_ENABLED {
 						c.NodeDetailFriendliness = NODE_DETAIL_ALWAYS
 					} else if ns.whichType == ARG_DISABLED {
@@ -224,7 +232,11 @@ func (c *ProgramConfig) FromCommandLine() bool {
 					}
 				} else if bytes.HasPrefix([]byte(arg), []byte("--sidecache")) {
 					// Parameter to control whether use
-					ns, _ := readNumeric("--sidecache=", []byte(arg)[len("--sidecache=")-1:])
+					ns, rest := readNumeric("--sidecache=", []byte(arg)[len("--sidecache=")-1:])
+					if len(rest) > 0 {
+						Log.Error("Unrecognised argument '%s' - aborting.\n", arg)
+						return false
+					}
 					if ns.whichType == ARG_ENABLED {
 						c.CacheSideness = CACHE_SIDENESS_ALWAYS
 					} else if ns.whichType == ARG_DISABLED {
@@ -258,7 +270,11 @@ func (c *ProgramConfig) FromCommandLine() bool {
 						c.DepthArtifacts = false
 					}
 				} else if bytes.HasPrefix([]byte(arg), []byte("--stknode")) {
-					ns, _ := readNumeric("--stknode=", []byte(arg)[len("--stknode=")-1:])
+					ns, rest := readNumeric("--stknode=", []byte(arg)[len("--stknode=")-1:])
+					if len(rest) > 0 {
+						Log.Error("Unrecognised argument '%s' - aborting.\n", arg)
+						return false
+					}
 					if ns.whichType == ARG_ENABLED {
 						c.StkNode = true
 					} else if ns.whichType == ARG_DISABLED {
@@ -292,7 +308,11 @@ func (c *ProgramConfig) FromCommandLine() bool {
 					c.NoSymm = true
 				} else if bytes.HasPrefix([]byte(arg), []byte("--speedtree")) {
 					// Parameter to control whether use
-					ns, _ := readNumeric("--speedtree=", []byte(arg)[len("--speedtree=")-1:])
+					ns, rest := readNumeric("--speedtree=", []byte(arg)[len("--speedtree=")-1:])
+					if len(rest) > 0 {
+						Log.Error("Unrecognised argument '%s' - aborting.\n", arg)
+						return false
+					}
 					c.SpeedTreeExplicit = true
 					if ns.whichType == ARG_ENABLED {
 						c.SpeedTree = true
@@ -311,7 +331,11 @@ func (c *ProgramConfig) FromCommandLine() bool {
 					}
 				} else if bytes.HasPrefix([]byte(arg), []byte("--roots")) {
 					// Parameter to control whether use
-					ns, _ := readNumeric("--roots=", []byte(arg)[len("--roots=")-1:])
+					ns, rest := readNumeric("--roots=", []byte(arg)[len("--roots=")-1:])
+					if len(rest) > 0 {
+						Log.Error("Unrecognised argument '%s' - aborting.\n", arg)
+						return false
+					}
 					switch ns.whichType {
 					case ARG_IS_NUMBER:
 						if c.Roots < 0 {
@@ -371,6 +395,9 @@ func (c *ProgramConfig) FromCommandLine() bool {
 					}
 					c.FilterProhibitsLevels = true
 				}
+			default:
+				Log.Error("Unrecognised argument '%s' - aborting.\n", arg)
+				return false
 			}
 		default:
 			{
@@ -487,6 +514,10 @@ func (c *ProgramConfig) parseMapList(exclMark string, p []byte) bool {
 	}
 	c.FilterLevel = make([][]byte, 0)
 	rest := p[1:]
+	if len(rest) == 0 {
+		Log.Error("'-%sm:' argument is missing a level name.\n", exclMark)
+		return false
+	}
 	for len(rest) > 0 {
 		pin := bytes.IndexByte(rest, '+')
 		if pin == -1 {
@@ -885,6 +916,9 @@ func (c *ProgramConfig) parseNodesParams(p []byte) {
 		case 'm':
 			{
 				nos, rest := readNumeric("-nm", p[1:])
+				if nos.whichType == ARG_ENABLED {
+					Log.Error("You are supposed to pass -nm=<digit>, not -nm or -nm+. Single tree will be built.\n")
+				}
 				switch nos.value {
 				case 0:
 					{
-- 
2.43.0


From 0c8c67f60d6d9ea4472dab54bc5ed849e0ced90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:12 +0000
Subject: [PATCH 22/49] fix: zen variable given twice in different letter case
 got either value at random

---
 cmdparser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdparser.go b/cmdparser.go
index e0b6944..eb65525 100755
--- a/cmdparser.go
+++ b/cmdparser.go
@@ -1245,7 +1245,7 @@ func readIntParams(arg []byte) (bool, map[string]int) {
 				string(v), string(p))
 			return false, nil
 		}
-		rmp[string(k)] = vv
+		rmp[strings.ToLower(string(k))] = vv
 	}
 	return true, rmp
 }
-- 
2.43.0


From d61eb01f064c42178465f9f7749c701d4185755e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:26 +0000
Subject: [PATCH 23/49] fix: RMB options BLIND/SAFE combined with INVERT
 BLIND/SAFE hid the opposite of the documented range

---
 rejectFAST.go | 30 ++++++++++++++++++++----------
 rejectRMB.go  | 32 ++++++++++++++++++++++----------
 rejectSYMM.go | 30 ++++++++++++++++++++----------
 3 files changed, 62 insertions(+), 30 deletions(-)

diff --git a/rejectFAST.go b/rejectFAST.go
index 7ddcb9a..f093ffd 100755
--- a/rejectFAST.go
+++ b/rejectFAST.go
@@ -1223,11 +1223,9 @@ func (r *FastRejectWork) rmbGetGroup(sectors []SectorRMB, num int, command RMBCo
 }
 
 func (r *FastRejectWork) applyBlind(sector SectorRMB, i int) {
-	if sector.Blind == 3 {
-		if sector.BlindLo > sector.BlindHi {
-			sector.BlindLo, sector.BlindHi = sector.BlindHi, sector.BlindLo
-			sector.Blind = 4
-		}
+	if sector.Blind == 3 && sector.BlindHi > sector.BlindLo {
+
+		sector.Blind = 4
 	}
 
 	for j := 0; j < r.numSectors; j++ {
@@ -1256,11 +1254,9 @@ func (r *FastRejectWork) applyBlind(sector SectorRMB, i int) {
 }
 
 func (r *FastRejectWork) applySafe(sector SectorRMB, i int) {
-	if sector.Safe == 3 {
-		if sector.SafeLo > sector.SafeHi {
-			sector.SafeLo, sector.SafeHi = sector.SafeHi, sector.SafeLo
-			sector.Safe = 4
-		}
+	if sector.Safe == 3 && sector.SafeHi > sector.SafeLo {
+
+		sector.Safe = 4
 	}
 
 	for j := 0; j < r.numSectors; j++ {
@@ -1610,6 +1606,13 @@ func (r *FastRejectWork) applySimpleBlind(sector SectorRMB, i int) {
 		}
 		grJ := r.groups[j].parent
 		for _, k := range r.groups[grJ].sectors {
+			if sector.Blind == 3 && sector.BlindHi > sector.BlindLo {
+
+				if grI == grJ {
+					*r.rejectTableIJ(i, k) = VIS_HIDDEN
+				}
+				continue
+			}
 			if sector.Blind&1 == 1 {
 
 				if sector.BlindLo == 0 || grJ != grI {
@@ -1635,6 +1638,13 @@ func (r *FastRejectWork) applySimpleSafe(sector SectorRMB, i int) {
 		}
 		grJ := r.groups[j].parent
 		for _, k := range r.groups[grJ].sectors {
+			if sector.Safe == 3 && sector.SafeHi > sector.SafeLo {
+
+				if grI == grJ {
+					*r.rejectTableIJ(k, i) = VIS_HIDDEN
+				}
+				continue
+			}
 			if sector.Safe&1 == 1 {
 
 				if sector.SafeLo == 0 || grJ != grI {
diff --git a/rejectRMB.go b/rejectRMB.go
index 1895148..e63683f 100755
--- a/rejectRMB.go
+++ b/rejectRMB.go
@@ -426,11 +426,10 @@ func rmbCheckSectorInRange(numSectors, i int, command RMBCommand) bool {
 }
 
 func (r *RejectWork) applyBlind(sector SectorRMB, i int) {
-	if sector.Blind == 3 {
-		if sector.BlindLo > sector.BlindHi {
-			sector.BlindLo, sector.BlindHi = sector.BlindHi, sector.BlindLo
-			sector.Blind = 4
-		}
+	if sector.Blind == 3 && sector.BlindHi > sector.BlindLo {
+		// distance of inverse BLIND exceeds that of normal BLIND: according to RMB
+		// manual, only the range where both overlap is affected
+		sector.Blind = 4
 	}
 
 	for j := 0; j < r.numSectors; j++ {
@@ -466,11 +465,10 @@ func (r *RejectWork) applyBlind(sector SectorRMB, i int) {
 }
 
 func (r *RejectWork) applySafe(sector SectorRMB, i int) {
-	if sector.Safe == 3 {
-		if sector.SafeLo > sector.SafeHi {
-			sector.SafeLo, sector.SafeHi = sector.SafeHi, sector.SafeLo
-			sector.Safe = 4
-		}
+	if sector.Safe == 3 && sector.SafeHi > sector.SafeLo {
+		// distance of inverse SAFE exceeds that of normal SAFE: according to RMB
+		// manual, only the range where both overlap is affected
+		sector.Safe = 4
 	}
 
 	for j := 0; j < r.numSectors; j++ {
@@ -1184,6 +1182,13 @@ func (r *RejectWork) applySimpleBlind(sector SectorRMB, i int) {
 		}
 		grJ := r.groups[j].parent
 		for _, k := range r.groups[grJ].sectors {
+			if sector.Blind == 3 && sector.BlindHi > sector.BlindLo {
+				// BLIND 0 + inverse BLIND 1 overlap only on own sector/group
+				if grI == grJ {
+					*r.rejectTableIJ(i, k) = VIS_HIDDEN
+				}
+				continue
+			}
 			if sector.Blind&1 == 1 {
 				// Handle normal BLIND 0/1
 				if sector.BlindLo == 0 || grJ != grI {
@@ -1210,6 +1215,13 @@ func (r *RejectWork) applySimpleSafe(sector SectorRMB, i int) {
 		}
 		grJ := r.groups[j].parent
 		for _, k := range r.groups[grJ].sectors {
+			if sector.Safe == 3 && sector.SafeHi > sector.SafeLo {
+				// SAFE 0 + inverse SAFE 1 overlap only on own sector/group
+				if grI == grJ {
+					*r.rejectTableIJ(k, i) = VIS_HIDDEN
+				}
+				continue
+			}
 			if sector.Safe&1 == 1 {
 				// Handle normal SAFE 0/1
 				if sector.SafeLo == 0 || grJ != grI {
diff --git a/rejectSYMM.go b/rejectSYMM.go
index 44dd845..d3b8977 100755
--- a/rejectSYMM.go
+++ b/rejectSYMM.go
@@ -1155,11 +1155,9 @@ func (r *SymmetricRejectWork) rmbGetGroup(sectors []SectorRMB, num int, command
 }
 
 func (r *SymmetricRejectWork) applyBlind(sector SectorRMB, i int) {
-	if sector.Blind == 3 {
-		if sector.BlindLo > sector.BlindHi {
-			sector.BlindLo, sector.BlindHi = sector.BlindHi, sector.BlindLo
-			sector.Blind = 4
-		}
+	if sector.Blind == 3 && sector.BlindHi > sector.BlindLo {
+
+		sector.Blind = 4
 	}
 
 	for j := 0; j < r.numSectors; j++ {
@@ -1188,11 +1186,9 @@ func (r *SymmetricRejectWork) applyBlind(sector SectorRMB, i int) {
 }
 
 func (r *SymmetricRejectWork) applySafe(sector SectorRMB, i int) {
-	if sector.Safe == 3 {
-		if sector.SafeLo > sector.SafeHi {
-			sector.SafeLo, sector.SafeHi = sector.SafeHi, sector.SafeLo
-			sector.Safe = 4
-		}
+	if sector.Safe == 3 && sector.SafeHi > sector.SafeLo {
+
+		sector.Safe = 4
 	}
 
 	for j := 0; j < r.numSectors; j++ {
@@ -1527,6 +1523,13 @@ func (r *SymmetricRejectWork) applySimpleBlind(sector SectorRMB, i int) {
 		}
 		grJ := r.groups[j].parent
 		for _, k := range r.groups[grJ].sectors {
+			if sector.Blind == 3 && sector.BlindHi > sector.BlindLo {
+
+				if grI == grJ {
+					*r.rejectTableIJ(i, k) = VIS_HIDDEN
+				}
+				continue
+			}
 			if sector.Blind&1 == 1 {
 
 				if sector.BlindLo == 0 || grJ != grI {
@@ -1552,6 +1555,13 @@ func (r *SymmetricRejectWork) applySimpleSafe(sector SectorRMB, i int) {
 		}
 		grJ := r.groups[j].parent
 		for _, k := range r.groups[grJ].sectors {
+			if sector.Safe == 3 && sector.SafeHi > sector.SafeLo {
+
+				if grI == grJ {
+					*r.rejectTableIJ(k, i) = VIS_HIDDEN
+				}
+				continue
+			}
 			if sector.Safe&1 == 1 {
 
 				if sector.SafeLo == 0 || grJ != grI {
-- 
2.43.0


From c4d09311977a9afab00dc374851c418cd72dc3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:26 +0000
Subject: [PATCH 24/49] fix: RMB option INVERT BAND hid everything instead of
 what is outside of the band

---
 rejectFAST.go | 14 ++++++++++----
 rejectRMB.go  | 18 ++++++++++++++----
 rejectSYMM.go | 14 ++++++++++----
 3 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/rejectFAST.go b/rejectFAST.go
index f093ffd..f2e1718 100755
--- a/rejectFAST.go
+++ b/rejectFAST.go
@@ -1139,12 +1139,15 @@ func (r *FastRejectWork) prepareBlind(command RMBCommand, sectors []SectorRMB) {
 					continue
 				}
 				if command.Invert {
+
 					sector.Blind = 7
+					sector.BlindHi = command.Data[0]
+					sector.BlindLo = command.Data[1]
 				} else {
 					sector.Blind = 4
+					sector.BlindLo = command.Data[0]
+					sector.BlindHi = command.Data[1]
 				}
-				sector.BlindLo = command.Data[0]
-				sector.BlindHi = command.Data[1]
 			}
 		}
 	} else {
@@ -1179,12 +1182,15 @@ func (r *FastRejectWork) prepareSafe(command RMBCommand, sectors []SectorRMB) {
 					continue
 				}
 				if command.Invert {
+
 					sector.Safe = 7
+					sector.SafeHi = command.Data[0]
+					sector.SafeLo = command.Data[1]
 				} else {
 					sector.Safe = 4
+					sector.SafeLo = command.Data[0]
+					sector.SafeHi = command.Data[1]
 				}
-				sector.SafeLo = command.Data[0]
-				sector.SafeHi = command.Data[1]
 			}
 		}
 	} else {
diff --git a/rejectRMB.go b/rejectRMB.go
index e63683f..2533d48 100755
--- a/rejectRMB.go
+++ b/rejectRMB.go
@@ -325,12 +325,17 @@ func (r *RejectWork) prepareBlind(command RMBCommand, sectors []SectorRMB) {
 					continue
 				}
 				if command.Invert {
+					// everything outside of the band: closer than its start
+					// (handled same as inverse BLIND) and beyond its end
+					// (handled same as normal BLIND)
 					sector.Blind = 7
+					sector.BlindHi = command.Data[0]
+					sector.BlindLo = command.Data[1]
 				} else {
 					sector.Blind = 4
+					sector.BlindLo = command.Data[0]
+					sector.BlindHi = command.Data[1]
 				}
-				sector.BlindLo = command.Data[0]
-				sector.BlindHi = command.Data[1]
 			}
 		}
 	} else {
@@ -366,12 +371,17 @@ func (r *RejectWork) prepareSafe(command RMBCommand, sectors []SectorRMB) {
 					continue
 				}
 				if command.Invert {
+					// everything outside of the band: closer than its start
+					// (handled same as inverse SAFE) and beyond its end
+					// (handled same as normal SAFE)
 					sector.Safe = 7
+					sector.SafeHi = command.Data[0]
+					sector.SafeLo = command.Data[1]
 				} else {
 					sector.Safe = 4
+					sector.SafeLo = command.Data[0]
+					sector.SafeHi = command.Data[1]
 				}
-				sector.SafeLo = command.Data[0]
-				sector.SafeHi = command.Data[1]
 			}
 		}
 	} else {
diff --git a/rejectSYMM.go b/rejectSYMM.go
index d3b8977..34b60fa 100755
--- a/rejectSYMM.go
+++ b/rejectSYMM.go
@@ -1071,12 +1071,15 @@ func (r *SymmetricRejectWork) prepareBlind(command RMBCommand, sectors []SectorR
 					continue
 				}
 				if command.Invert {
+
 					sector.Blind = 7
+					sector.BlindHi = command.Data[0]
+					sector.BlindLo = command.Data[1]
 				} else {
 					sector.Blind = 4
+					sector.BlindLo = command.Data[0]
+					sector.BlindHi = command.Data[1]
 				}
-				sector.BlindLo = command.Data[0]
-				sector.BlindHi = command.Data[1]
 			}
 		}
 	} else {
@@ -1111,12 +1114,15 @@ func (r *SymmetricRejectWork) prepareSafe(command RMBCommand, sectors []SectorRM
 					continue
 				}
 				if command.Invert {
+
 					sector.Safe = 7
+					sector.SafeHi = command.Data[0]
+					sector.SafeLo = command.Data[1]
 				} else {
 					sector.Safe = 4
+					sector.SafeLo = command.Data[0]
+					sector.SafeHi = command.Data[1]
 				}
-				sector.SafeLo = command.Data[0]
-				sector.SafeHi = command.Data[1]
 			}
 		}
 	} else {
-- 
2.43.0


From b5d473354b67a519e8711eb2b91a62aed3b77aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:53 +0000
Subject: [PATCH 25/49] fix: RMB option DISTANCE never applied to lines facing
 each other, and hid sectors less than three sectors away

---
 rejectFAST.go | 13 +++++++++----
 rejectRMB.go  | 29 +++++++++++++++++++++++++----
 rejectSYMM.go | 13 +++++++++----
 3 files changed, 43 insertions(+), 12 deletions(-)

diff --git a/rejectFAST.go b/rejectFAST.go
index f2e1718..a203fb2 100755
--- a/rejectFAST.go
+++ b/rejectFAST.go
@@ -19,6 +19,7 @@ package main
 
 import (
 	"io"
+	"math/bits"
 	"sort"
 )
 
@@ -1460,6 +1461,7 @@ func (r *FastRejectWork) distanceTableIJ(i, j int) *uint16 {
 
 func (r *FastRejectWork) linesTooFarApart(srcLine, tgtLine *TransLine) bool {
 	if r.maxDistance != UNLIMITED_DISTANCE &&
+		!linesShareSector(srcLine, tgtLine) &&
 		r.pointTooFar(srcLine.start, tgtLine) &&
 		r.pointTooFar(srcLine.end, tgtLine) &&
 		r.pointTooFar(tgtLine.start, srcLine) &&
@@ -1485,11 +1487,14 @@ func (r *FastRejectWork) pointTooFar(p *IntVertex, line *TransLine) bool {
 		return !(r.mapDistance(p, p2) < r.maxDistance)
 	}
 
-	d := (int64(line.DX)*int64(p.Y-p1.Y) - int64(line.DY)*int64(p.X-p1.X)) / int64(line.H)
-	if d < 0 {
-		return false
+	c2 := int64(line.DX)*int64(p.Y-p1.Y) - int64(line.DY)*int64(p.X-p1.X)
+	if c2 < 0 {
+		c2 = -c2
 	}
-	return !(uint64(d) < r.maxDistance)
+
+	hi, lo := bits.Mul64(uint64(c2), uint64(c2))
+	maxHi, maxLo := bits.Mul64(r.maxDistance, uint64(line.H))
+	return !(hi < maxHi || (hi == maxHi && lo < maxLo))
 }
 
 func (r *FastRejectWork) mapDistance(p1, p2 *IntVertex) uint64 {
diff --git a/rejectRMB.go b/rejectRMB.go
index 2533d48..dc58fe7 100755
--- a/rejectRMB.go
+++ b/rejectRMB.go
@@ -20,6 +20,8 @@ package main
 
 import (
 	"io"
+	"math"
+	"math/bits"
 )
 
 // This file applies RMB effects to reject and so hosts code that is used
@@ -225,6 +227,10 @@ func (fr *RMBFrame) GetDISTANCEValue() (bool, uint64) {
 	}
 	for i := len(fr.Commands) - 1; i >= 0; i-- {
 		if fr.Commands[i].Type == RMB_DISTANCE {
+			if fr.Commands[i].Data[0] > math.MaxInt32 {
+				// the square might not fit, and no map is that big anyway
+				return true, UNLIMITED_DISTANCE
+			}
 			v := uint64(fr.Commands[i].Data[0])
 			// From Zennode: store the square of the distance (avoid floating
 			// point later on)
@@ -791,6 +797,7 @@ func (r *RejectWork) distanceTableIJ(i, j int) *uint16 {
 
 func (r *RejectWork) linesTooFarApart(srcLine, tgtLine *TransLine) bool {
 	if r.maxDistance != UNLIMITED_DISTANCE &&
+		!linesShareSector(srcLine, tgtLine) &&
 		r.pointTooFar(srcLine.start, tgtLine) &&
 		r.pointTooFar(srcLine.end, tgtLine) &&
 		r.pointTooFar(tgtLine.start, srcLine) &&
@@ -802,6 +809,16 @@ func (r *RejectWork) linesTooFarApart(srcLine, tgtLine *TransLine) bool {
 	return false
 }
 
+// RMB manual: DISTANCE doesn't apply until sectors are three or more sectors
+// removed from each other along the line of sight. So it never applies to lines
+// of the same sector
+func linesShareSector(line1, line2 *TransLine) bool {
+	return line1.frontSector == line2.frontSector ||
+		line1.frontSector == line2.backSector ||
+		line1.backSector == line2.frontSector ||
+		line1.backSector == line2.backSector
+}
+
 func (r *RejectWork) pointTooFar(p *IntVertex, line *TransLine) bool {
 	p1 := line.start
 	p2 := line.end
@@ -816,11 +833,15 @@ func (r *RejectWork) pointTooFar(p *IntVertex, line *TransLine) bool {
 		return !(r.mapDistance(p, p2) < r.maxDistance)
 	}
 
-	d := (int64(line.DX)*int64(p.Y-p1.Y) - int64(line.DY)*int64(p.X-p1.X)) / int64(line.H)
-	if d < 0 {
-		return false // guaranteed d < r.maxDistance, since maxDistance is non-negative
+	// The nearest point is inside the line, squared distance to it is c2*c2/H
+	c2 := int64(line.DX)*int64(p.Y-p1.Y) - int64(line.DY)*int64(p.X-p1.X)
+	if c2 < 0 {
+		c2 = -c2
 	}
-	return !(uint64(d) < r.maxDistance)
+	// all the values are squares, products of them might not fit into 64 bits
+	hi, lo := bits.Mul64(uint64(c2), uint64(c2))
+	maxHi, maxLo := bits.Mul64(r.maxDistance, uint64(line.H))
+	return !(hi < maxHi || (hi == maxHi && lo < maxLo))
 }
 
 func (r *RejectWork) mapDistance(p1, p2 *IntVertex) uint64 {
diff --git a/rejectSYMM.go b/rejectSYMM.go
index 34b60fa..ff83b4a 100755
--- a/rejectSYMM.go
+++ b/rejectSYMM.go
@@ -19,6 +19,7 @@ package main
 
 import (
 	"io"
+	"math/bits"
 	"sort"
 )
 
@@ -1392,6 +1393,7 @@ func (r *SymmetricRejectWork) distanceTableIJ(i, j int) *uint16 {
 
 func (r *SymmetricRejectWork) linesTooFarApart(srcLine, tgtLine *TransLine) bool {
 	if r.maxDistance != UNLIMITED_DISTANCE &&
+		!linesShareSector(srcLine, tgtLine) &&
 		r.pointTooFar(srcLine.start, tgtLine) &&
 		r.pointTooFar(srcLine.end, tgtLine) &&
 		r.pointTooFar(tgtLine.start, srcLine) &&
@@ -1417,11 +1419,14 @@ func (r *SymmetricRejectWork) pointTooFar(p *IntVertex, line *TransLine) bool {
 		return !(r.mapDistance(p, p2) < r.maxDistance)
 	}
 
-	d := (int64(line.DX)*int64(p.Y-p1.Y) - int64(line.DY)*int64(p.X-p1.X)) / int64(line.H)
-	if d < 0 {
-		return false
+	c2 := int64(line.DX)*int64(p.Y-p1.Y) - int64(line.DY)*int64(p.X-p1.X)
+	if c2 < 0 {
+		c2 = -c2
 	}
-	return !(uint64(d) < r.maxDistance)
+
+	hi, lo := bits.Mul64(uint64(c2), uint64(c2))
+	maxHi, maxLo := bits.Mul64(r.maxDistance, uint64(line.H))
+	return !(hi < maxHi || (hi == maxHi && lo < maxLo))
 }
 
 func (r *SymmetricRejectWork) mapDistance(p1, p2 *IntVertex) uint64 {
-- 
2.43.0


From f314ecbb0a34e9d855a5ead584a51213d70c3145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:11 +0000
Subject: [PATCH 26/49] fix: RMB option GROUP with LINE or DISTANCE lost
 visibility of sectors adjacent to members of the group

---
 reject.go     | 40 ++++++++++++++++++++++++++++++++++++++++
 rejectFAST.go | 35 +++++++++++++++++++++++++++++++++++
 rejectSYMM.go | 35 +++++++++++++++++++++++++++++++++++
 3 files changed, 110 insertions(+)

diff --git a/reject.go b/reject.go
index ee8ce35..62f1f9e 100755
--- a/reject.go
+++ b/reject.go
@@ -469,6 +469,10 @@ func (r *RejectWork) main(input RejectInput, hasGroups bool, groupShareVis bool,
 		Log.Printf(causeSkip)
 	}
 
+	if r.groupShareVis {
+		r.propagateGroupVisibility()
+	}
+
 	// Apply special RMB rules (now that all physical LOS calculations are either
 	// done, or were skipped because of NOPROCESS or absence of transient lines)
 	r.rmbFrame.ProcessOptionsRMB(r)
@@ -1379,6 +1383,42 @@ func (r *RejectWork) markVisibilityGroup(i, j int, visibility uint8) {
 	}
 }
 
+// Ensures that if any sector in the group is visible from (or sees) some other
+// sector, all sectors in the same group are visible from (see) it. Adjacency
+// and hacks for self-referencing sectors are recorded for the one sector they
+// are about, and mixer forgets that sectors were found visible before that, so
+// this needs to be done when all physical visibility is known
+func (r *RejectWork) propagateGroupVisibility() {
+	for i, gi := range r.groups {
+		if !gi.legal {
+			continue
+		}
+		for j, gj := range r.groups {
+			if j < i || !gj.legal ||
+				(len(gi.sectors) == 1 && len(gj.sectors) == 1) {
+				continue
+			}
+			visible := false
+			for _, s1 := range gi.sectors {
+				for _, s2 := range gj.sectors {
+					visible = visible ||
+						*(r.rejectTableIJ(s1, s2)) == VIS_VISIBLE ||
+						*(r.rejectTableIJ(s2, s1)) == VIS_VISIBLE
+				}
+			}
+			if !visible {
+				continue
+			}
+			for _, s1 := range gi.sectors {
+				for _, s2 := range gj.sectors {
+					*(r.rejectTableIJ(s1, s2)) = VIS_VISIBLE
+					*(r.rejectTableIJ(s2, s1)) = VIS_VISIBLE
+				}
+			}
+		}
+	}
+}
+
 func (r *RejectWork) markPairVisible(srcLine, tgtLine *TransLine) {
 	// there is a direct LOS between the two lines - mark all affected sectors (zennode)
 	// that is, mark both sectors of one line as visible from both of another and vice versa
diff --git a/rejectFAST.go b/rejectFAST.go
index a203fb2..c8785ac 100755
--- a/rejectFAST.go
+++ b/rejectFAST.go
@@ -179,6 +179,10 @@ func (r *FastRejectWork) main(input RejectInput, hasGroups bool, groupShareVis b
 		Log.Printf(causeSkip)
 	}
 
+	if r.groupShareVis {
+		r.propagateGroupVisibility()
+	}
+
 	r.rmbFrame.FastProcessOptionsRMB(r)
 
 	return r.getResult()
@@ -819,6 +823,37 @@ func (r *FastRejectWork) sectorIsNotGroup(i int) bool {
 	return r.groups[i].legal && len(r.groups[i].sectors) == 1
 }
 
+func (r *FastRejectWork) propagateGroupVisibility() {
+	for i, gi := range r.groups {
+		if !gi.legal {
+			continue
+		}
+		for j, gj := range r.groups {
+			if j < i || !gj.legal ||
+				(len(gi.sectors) == 1 && len(gj.sectors) == 1) {
+				continue
+			}
+			visible := false
+			for _, s1 := range gi.sectors {
+				for _, s2 := range gj.sectors {
+					visible = visible ||
+						*(r.rejectTableIJ(s1, s2)) == VIS_VISIBLE ||
+						*(r.rejectTableIJ(s2, s1)) == VIS_VISIBLE
+				}
+			}
+			if !visible {
+				continue
+			}
+			for _, s1 := range gi.sectors {
+				for _, s2 := range gj.sectors {
+					*(r.rejectTableIJ(s1, s2)) = VIS_VISIBLE
+					*(r.rejectTableIJ(s2, s1)) = VIS_VISIBLE
+				}
+			}
+		}
+	}
+}
+
 func (r *FastRejectWork) markPairVisible(srcLine, tgtLine *TransLine) {
 
 	r.markVisibility(int(srcLine.frontSector), int(tgtLine.frontSector), VIS_VISIBLE)
diff --git a/rejectSYMM.go b/rejectSYMM.go
index ff83b4a..3c83053 100755
--- a/rejectSYMM.go
+++ b/rejectSYMM.go
@@ -179,6 +179,10 @@ func (r *SymmetricRejectWork) main(input RejectInput, hasGroups bool, groupShare
 		Log.Printf(causeSkip)
 	}
 
+	if r.groupShareVis {
+		r.propagateGroupVisibility()
+	}
+
 	r.rmbFrame.SymmetricProcessOptionsRMB(r)
 
 	return r.getResult()
@@ -755,6 +759,37 @@ func (r *SymmetricRejectWork) sectorIsNotGroup(i int) bool {
 	return r.groups[i].legal && len(r.groups[i].sectors) == 1
 }
 
+func (r *SymmetricRejectWork) propagateGroupVisibility() {
+	for i, gi := range r.groups {
+		if !gi.legal {
+			continue
+		}
+		for j, gj := range r.groups {
+			if j < i || !gj.legal ||
+				(len(gi.sectors) == 1 && len(gj.sectors) == 1) {
+				continue
+			}
+			visible := false
+			for _, s1 := range gi.sectors {
+				for _, s2 := range gj.sectors {
+					visible = visible ||
+						*(r.rejectTableIJ(s1, s2)) == VIS_VISIBLE ||
+						*(r.rejectTableIJ(s2, s1)) == VIS_VISIBLE
+				}
+			}
+			if !visible {
+				continue
+			}
+			for _, s1 := range gi.sectors {
+				for _, s2 := range gj.sectors {
+					*(r.rejectTableIJ(s1, s2)) = VIS_VISIBLE
+					*(r.rejectTableIJ(s2, s1)) = VIS_VISIBLE
+				}
+			}
+		}
+	}
+}
+
 func (r *SymmetricRejectWork) markPairVisible(srcLine, tgtLine *TransLine) {
 
 	r.markVisibility(int(srcLine.frontSector), int(tgtLine.frontSector), VIS_VISIBLE)
-- 
2.43.0


From 69f4b8e028a3d0a9217dc83b3de5eedba52943ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:24 +0000
Subject: [PATCH 27/49] fix: RMB options were ignored or inverted on maps where
 no passable line is left, LENGTH didn't know about groups

---
 reject.go     | 14 ++++++++++++++
 rejectFAST.go | 13 +++++++++++++
 rejectRMB.go  | 10 +++++++++-
 rejectSYMM.go | 13 +++++++++++++
 4 files changed, 49 insertions(+), 1 deletion(-)

diff --git a/reject.go b/reject.go
index 62f1f9e..f36f8ff 100755
--- a/reject.go
+++ b/reject.go
@@ -844,7 +844,21 @@ func (r *RejectWork) setupLines(rsetup *RejectInternalSetup) (setupDone bool,
 	r.solidLines = r.solidLines[:numSolidLines]
 	r.transLines = r.transLines[:numTransLines]
 	r.seenLines = make([]uint8, numSolidLines>>3+1)
+	if numTransLines == 0 && (len(r.specialSolids) > 0 ||
+		rmbFrame.HasPhysicalLimits()) {
+		// RMB options ask to hide what can't be seen under some restrictions.
+		// Zero-filled reject would be the opposite of that
+		return true, ""
+	}
 	if numTransLines == 0 {
+		if rsetup.needDistances {
+			// no sector can be reached from any other
+			r.sectors = createSectorInfo(r.numSectors, r.transLines)
+			if r.hasGroups {
+				computeGroupNeighbors(r.groups, r.sectors)
+			}
+			r.CreateDistanceTable()
+		}
 		// message below promises zero-filled reject
 		for i := range r.rejectTable {
 			r.rejectTable[i] = VIS_VISIBLE
diff --git a/rejectFAST.go b/rejectFAST.go
index c8785ac..609dc6b 100755
--- a/rejectFAST.go
+++ b/rejectFAST.go
@@ -487,7 +487,20 @@ func (r *FastRejectWork) setupLines(rsetup *RejectInternalSetup) (setupDone bool
 	r.solidLines = r.solidLines[:numSolidLines]
 	r.transLines = r.transLines[:numTransLines]
 	r.seenLines = make([]uint8, numSolidLines>>3+1)
+	if numTransLines == 0 && (len(r.specialSolids) > 0 ||
+		rmbFrame.HasPhysicalLimits()) {
+
+		return true, ""
+	}
 	if numTransLines == 0 {
+		if rsetup.needDistances {
+
+			r.sectors = createSectorInfo(r.numSectors, r.transLines)
+			if r.hasGroups {
+				computeGroupNeighbors(r.groups, r.sectors)
+			}
+			r.CreateDistanceTable()
+		}
 
 		for i := range r.rejectTable {
 			r.rejectTable[i] = VIS_VISIBLE
diff --git a/rejectRMB.go b/rejectRMB.go
index dc58fe7..6c0c5f6 100755
--- a/rejectRMB.go
+++ b/rejectRMB.go
@@ -158,7 +158,7 @@ func (fr *RMBFrame) HasOptionTrickyForGroups() bool {
 	}
 	for _, cmd := range fr.Commands {
 		switch cmd.Type {
-		case RMB_DISTANCE, RMB_LINE:
+		case RMB_DISTANCE, RMB_LENGTH, RMB_LINE:
 			{
 				return true
 			}
@@ -185,6 +185,14 @@ func (fr *RMBFrame) HasLineEffects() bool {
 	return fr.Parent.HasLineEffects()
 }
 
+// Whether options are present that limit how far can be seen on the map in
+// general
+func (fr *RMBFrame) HasPhysicalLimits() bool {
+	hasLength, _ := fr.GetLENGTHValue()
+	hasDistance, _ := fr.GetDISTANCEValue()
+	return hasLength || hasDistance
+}
+
 // Scans frame for LENGTH option and returns the LAST encountered value
 // specified in it
 // If not found in current frame, will scan parent frame
diff --git a/rejectSYMM.go b/rejectSYMM.go
index 3c83053..4274325 100755
--- a/rejectSYMM.go
+++ b/rejectSYMM.go
@@ -435,7 +435,20 @@ func (r *SymmetricRejectWork) setupLines(rsetup *RejectInternalSetup) (setupDone
 	r.solidLines = r.solidLines[:numSolidLines]
 	r.transLines = r.transLines[:numTransLines]
 	r.seenLines = make([]uint8, numSolidLines>>3+1)
+	if numTransLines == 0 && (len(r.specialSolids) > 0 ||
+		rmbFrame.HasPhysicalLimits()) {
+
+		return true, ""
+	}
 	if numTransLines == 0 {
+		if rsetup.needDistances {
+
+			r.sectors = createSectorInfo(r.numSectors, r.transLines)
+			if r.hasGroups {
+				computeGroupNeighbors(r.groups, r.sectors)
+			}
+			r.CreateDistanceTable()
+		}
 
 		for i := range r.rejectTable {
 			r.rejectTable[i] = VIS_VISIBLE
-- 
2.43.0


From e75adba80c91b1cc8156612bb0b7abf23887b4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:25 +0000
Subject: [PATCH 28/49] fix: RMB groups joined into another group were left
 half-joined

---
 rejectRMB.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/rejectRMB.go b/rejectRMB.go
index 6c0c5f6..a3fd2c2 100755
--- a/rejectRMB.go
+++ b/rejectRMB.go
@@ -114,12 +114,16 @@ func (fr *RMBFrame) loadGroupsForFrame(groups []RejGroup) bool {
 					continue // ignore duplicate
 				}
 				b1 = true
-				groups[grI].sectors = append(groups[grI].sectors, v)
-				if v < groups[grI].minRepresentative {
-					groups[grI].minRepresentative = v
+				// sectors that have already been grouped under this one follow
+				for _, v2 := range groups[v].sectors {
+					groups[grI].sectors = append(groups[grI].sectors, v2)
+					if v2 < groups[grI].minRepresentative {
+						groups[grI].minRepresentative = v2
+					}
+					groups[v2].legal = false
+					groups[v2].parent = grI
 				}
-				groups[v].legal = false
-				groups[v].parent = grI
+				groups[v].sectors = groups[v].sectors[:1]
 				dupChecker[v] = true
 			}
 		}
-- 
2.43.0


From f7a7d2002b8977d183a6b106e44a7ba15187c265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:25 +0000
Subject: [PATCH 29/49] fix: RMB option VORTEX didn't let sectors that see only
 other members of the group look through it

---
 rejectFAST.go | 47 +++++++++++++++++++----------------------------
 rejectRMB.go  | 49 +++++++++++++++++++++----------------------------
 rejectSYMM.go | 47 +++++++++++++++++++----------------------------
 3 files changed, 59 insertions(+), 84 deletions(-)

diff --git a/rejectFAST.go b/rejectFAST.go
index 609dc6b..a829c69 100755
--- a/rejectFAST.go
+++ b/rejectFAST.go
@@ -1796,6 +1796,21 @@ func (fr *RMBFrame) FastvortexesSecondStage(r *FastRejectWork) {
 	}
 }
 
+func (r *FastRejectWork) vortexList(list []int, cmd RMBCommand) []int {
+	ret := make([]int, 0, len(list))
+	for _, i := range list {
+		if !rmbCheckSectorInRange(r.numSectors, i, cmd) {
+			continue
+		}
+		if r.hasGroups {
+			ret = append(ret, r.groups[i].sectors...)
+		} else {
+			ret = append(ret, i)
+		}
+	}
+	return ret
+}
+
 func (fr *RMBFrame) FastgetAllVortexes(allVortexes *[][]int, r *FastRejectWork) {
 	if fr == nil {
 		return
@@ -1803,20 +1818,8 @@ func (fr *RMBFrame) FastgetAllVortexes(allVortexes *[][]int, r *FastRejectWork)
 	fr.Parent.FastgetAllVortexes(allVortexes, r)
 	for _, cmd := range fr.Commands {
 		if cmd.Type == RMB_VORTEX {
-			list0 := make([]int, 0)
-			list1 := make([]int, 0)
-			for _, i := range cmd.List[0] {
-				if !rmbCheckSectorInRange(r.numSectors, i, cmd) {
-					continue
-				}
-				list0 = append(list0, i)
-			}
-			for _, j := range cmd.List[1] {
-				if !rmbCheckSectorInRange(r.numSectors, j, cmd) {
-					continue
-				}
-				list1 = append(list1, j)
-			}
+			list0 := r.vortexList(cmd.List[0], cmd)
+			list1 := r.vortexList(cmd.List[1], cmd)
 			*allVortexes = append(*allVortexes, list0)
 			*allVortexes = append(*allVortexes, list1)
 		}
@@ -1830,20 +1833,8 @@ func (fr *RMBFrame) FastvortexesThirdStage(r *FastRejectWork) {
 	fr.Parent.FastvortexesThirdStage(r)
 	for _, cmd := range fr.Commands {
 		if cmd.Type == RMB_VORTEX {
-			list0 := make([]int, 0)
-			list1 := make([]int, 0)
-			for _, i := range cmd.List[0] {
-				if !rmbCheckSectorInRange(r.numSectors, i, cmd) {
-					continue
-				}
-				list0 = append(list0, i)
-			}
-			for _, j := range cmd.List[1] {
-				if !rmbCheckSectorInRange(r.numSectors, j, cmd) {
-					continue
-				}
-				list1 = append(list1, j)
-			}
+			list0 := r.vortexList(cmd.List[0], cmd)
+			list1 := r.vortexList(cmd.List[1], cmd)
 
 			seesList0 := make([]bool, r.numSectors)
 			seesList1 := make([]bool, r.numSectors)
diff --git a/rejectRMB.go b/rejectRMB.go
index a3fd2c2..891c1cb 100755
--- a/rejectRMB.go
+++ b/rejectRMB.go
@@ -1425,6 +1425,23 @@ func otherVortexList(i int) int {
 	return other
 }
 
+// vortexList returns valid sectors from the list, together with sectors that are
+// grouped under them
+func (r *RejectWork) vortexList(list []int, cmd RMBCommand) []int {
+	ret := make([]int, 0, len(list))
+	for _, i := range list {
+		if !rmbCheckSectorInRange(r.numSectors, i, cmd) {
+			continue
+		}
+		if r.hasGroups {
+			ret = append(ret, r.groups[i].sectors...)
+		} else {
+			ret = append(ret, i)
+		}
+	}
+	return ret
+}
+
 // appends 2 lists per each vortex option to allVortexes
 func (fr *RMBFrame) getAllVortexes(allVortexes *[][]int, r *RejectWork) {
 	if fr == nil {
@@ -1433,20 +1450,8 @@ func (fr *RMBFrame) getAllVortexes(allVortexes *[][]int, r *RejectWork) {
 	fr.Parent.getAllVortexes(allVortexes, r)
 	for _, cmd := range fr.Commands {
 		if cmd.Type == RMB_VORTEX {
-			list0 := make([]int, 0)
-			list1 := make([]int, 0)
-			for _, i := range cmd.List[0] {
-				if !rmbCheckSectorInRange(r.numSectors, i, cmd) {
-					continue
-				}
-				list0 = append(list0, i)
-			}
-			for _, j := range cmd.List[1] {
-				if !rmbCheckSectorInRange(r.numSectors, j, cmd) {
-					continue
-				}
-				list1 = append(list1, j)
-			}
+			list0 := r.vortexList(cmd.List[0], cmd)
+			list1 := r.vortexList(cmd.List[1], cmd)
 			*allVortexes = append(*allVortexes, list0)
 			*allVortexes = append(*allVortexes, list1)
 		}
@@ -1465,20 +1470,8 @@ func (fr *RMBFrame) vortexesThirdStage(r *RejectWork) {
 	fr.Parent.vortexesThirdStage(r)
 	for _, cmd := range fr.Commands {
 		if cmd.Type == RMB_VORTEX {
-			list0 := make([]int, 0)
-			list1 := make([]int, 0)
-			for _, i := range cmd.List[0] {
-				if !rmbCheckSectorInRange(r.numSectors, i, cmd) {
-					continue
-				}
-				list0 = append(list0, i)
-			}
-			for _, j := range cmd.List[1] {
-				if !rmbCheckSectorInRange(r.numSectors, j, cmd) {
-					continue
-				}
-				list1 = append(list1, j)
-			}
+			list0 := r.vortexList(cmd.List[0], cmd)
+			list1 := r.vortexList(cmd.List[1], cmd)
 			// anything that sees list0, must see anything that is seen from list1
 			// anything that sees list1, must see anything that is seen from list0
 			seesList0 := make([]bool, r.numSectors)
diff --git a/rejectSYMM.go b/rejectSYMM.go
index 4274325..e23099b 100755
--- a/rejectSYMM.go
+++ b/rejectSYMM.go
@@ -1713,6 +1713,21 @@ func (fr *RMBFrame) SymmetricvortexesSecondStage(r *SymmetricRejectWork) {
 	}
 }
 
+func (r *SymmetricRejectWork) vortexList(list []int, cmd RMBCommand) []int {
+	ret := make([]int, 0, len(list))
+	for _, i := range list {
+		if !rmbCheckSectorInRange(r.numSectors, i, cmd) {
+			continue
+		}
+		if r.hasGroups {
+			ret = append(ret, r.groups[i].sectors...)
+		} else {
+			ret = append(ret, i)
+		}
+	}
+	return ret
+}
+
 func (fr *RMBFrame) SymmetricgetAllVortexes(allVortexes *[][]int, r *SymmetricRejectWork) {
 	if fr == nil {
 		return
@@ -1720,20 +1735,8 @@ func (fr *RMBFrame) SymmetricgetAllVortexes(allVortexes *[][]int, r *SymmetricRe
 	fr.Parent.SymmetricgetAllVortexes(allVortexes, r)
 	for _, cmd := range fr.Commands {
 		if cmd.Type == RMB_VORTEX {
-			list0 := make([]int, 0)
-			list1 := make([]int, 0)
-			for _, i := range cmd.List[0] {
-				if !rmbCheckSectorInRange(r.numSectors, i, cmd) {
-					continue
-				}
-				list0 = append(list0, i)
-			}
-			for _, j := range cmd.List[1] {
-				if !rmbCheckSectorInRange(r.numSectors, j, cmd) {
-					continue
-				}
-				list1 = append(list1, j)
-			}
+			list0 := r.vortexList(cmd.List[0], cmd)
+			list1 := r.vortexList(cmd.List[1], cmd)
 			*allVortexes = append(*allVortexes, list0)
 			*allVortexes = append(*allVortexes, list1)
 		}
@@ -1747,20 +1750,8 @@ func (fr *RMBFrame) SymmetricvortexesThirdStage(r *SymmetricRejectWork) {
 	fr.Parent.SymmetricvortexesThirdStage(r)
 	for _, cmd := range fr.Commands {
 		if cmd.Type == RMB_VORTEX {
-			list0 := make([]int, 0)
-			list1 := make([]int, 0)
-			for _, i := range cmd.List[0] {
-				if !rmbCheckSectorInRange(r.numSectors, i, cmd) {
-					continue
-				}
-				list0 = append(list0, i)
-			}
-			for _, j := range cmd.List[1] {
-				if !rmbCheckSectorInRange(r.numSectors, j, cmd) {
-					continue
-				}
-				list1 = append(list1, j)
-			}
+			list0 := r.vortexList(cmd.List[0], cmd)
+			list1 := r.vortexList(cmd.List[1], cmd)
 
 			seesList0 := make([]bool, r.numSectors)
 			seesList1 := make([]bool, r.numSectors)
-- 
2.43.0


From 60bdab919bb732486eb1777895f608724cc45720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:30 +0000
Subject: [PATCH 30/49] fix: the last line of report file ignored line break
 format of the RMB options file

---
 filecontrol.go | 10 +++++++---
 rejectFAST.go  |  2 +-
 rejectRMB.go   |  2 +-
 rejectSYMM.go  |  2 +-
 4 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/filecontrol.go b/filecontrol.go
index d21de1f..6e18db8 100644
--- a/filecontrol.go
+++ b/filecontrol.go
@@ -37,6 +37,7 @@ type FileControl struct {
 	fout              *os.File
 	frmb              *os.File
 	freport           *os.File
+	reportCRLF        bool
 	fpin              *os.File
 	inputFileName     string
 	outputFileName    string
@@ -97,7 +98,7 @@ func (fc *FileControl) CloseRMBOptionsFile() {
 	}
 }
 
-func (fc *FileControl) OpenReportFile() (*os.File, error) {
+func (fc *FileControl) OpenReportFile(CRLF bool) (*os.File, error) {
 	var err error
 	// Neither of wads being processed may be overwritten by report (they might
 	// have .rpt extension, or report file name might be a link to them)
@@ -116,6 +117,7 @@ func (fc *FileControl) OpenReportFile() (*os.File, error) {
 		fc.freport = nil
 		return nil, err
 	}
+	fc.reportCRLF = CRLF
 	return fc.freport, nil
 }
 
@@ -124,9 +126,11 @@ func (fc *FileControl) CloseReportFile(suc bool) bool {
 		return true
 	}
 	if suc {
-		fc.freport.Write([]byte("# Report written successfully - no entries lost\n"))
+		WriterPrintfln(fc.freport, fc.reportCRLF,
+			"# Report written successfully - no entries lost")
 	} else {
-		fc.freport.Write([]byte("# Program aborted, report might be missing entries\n"))
+		WriterPrintfln(fc.freport, fc.reportCRLF,
+			"# Program aborted, report might be missing entries")
 	}
 	err := fc.freport.Close()
 	if err != nil {
diff --git a/rejectFAST.go b/rejectFAST.go
index a829c69..993dd69 100755
--- a/rejectFAST.go
+++ b/rejectFAST.go
@@ -1608,7 +1608,7 @@ func (r *FastRejectWork) reportGetWriter() io.Writer {
 	if r.fileControl.freport != nil {
 		return r.fileControl.freport
 	}
-	wri, err := r.fileControl.OpenReportFile()
+	wri, err := r.fileControl.OpenReportFile(r.rmbFrame.RMB.CRLF)
 	if err != nil {
 		Log.Panic("Couldn't create file %s: %s\n", r.fileControl.reportFileName,
 			err.Error())
diff --git a/rejectRMB.go b/rejectRMB.go
index 891c1cb..a07e3ce 100755
--- a/rejectRMB.go
+++ b/rejectRMB.go
@@ -926,7 +926,7 @@ func (r *RejectWork) reportGetWriter() io.Writer {
 	if r.fileControl.freport != nil {
 		return r.fileControl.freport
 	}
-	wri, err := r.fileControl.OpenReportFile()
+	wri, err := r.fileControl.OpenReportFile(r.rmbFrame.RMB.CRLF)
 	if err != nil {
 		Log.Panic("Couldn't create file %s: %s\n", r.fileControl.reportFileName,
 			err.Error())
diff --git a/rejectSYMM.go b/rejectSYMM.go
index e23099b..426540f 100755
--- a/rejectSYMM.go
+++ b/rejectSYMM.go
@@ -1525,7 +1525,7 @@ func (r *SymmetricRejectWork) reportGetWriter() io.Writer {
 	if r.fileControl.freport != nil {
 		return r.fileControl.freport
 	}
-	wri, err := r.fileControl.OpenReportFile()
+	wri, err := r.fileControl.OpenReportFile(r.rmbFrame.RMB.CRLF)
 	if err != nil {
 		Log.Panic("Couldn't create file %s: %s\n", r.fileControl.reportFileName,
 			err.Error())
-- 
2.43.0


From 721615c63fca50e48711ec38d63fb7af17816073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:31 +0000
Subject: [PATCH 31/49] fix: RMB option INVERT without an argument crashed the
 program or inverted the option from a previous line

---
 rmbparse.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rmbparse.go b/rmbparse.go
index bfd1f74..dbaafe3 100755
--- a/rmbparse.go
+++ b/rmbparse.go
@@ -442,10 +442,17 @@ func ParseINVERT(context *ParseContext, tblIdx int, cmd *RMBCommand) bool {
 	// the cast to ParseContextRecursion is to avoid "loop initialization"
 	// compiler error. What am I really doing is calling parseRMBLine method on
 	// context
+	before := len(context.activeFrame.Commands)
 	if ParseContextRecursion(context).parseRMBLine(context.command, true) {
 		// Hack (bad): need to extract last cmd so that invert flag is applied
 		// to it
 		l := len(context.activeFrame.Commands)
+		if l == before {
+			// nothing but maybe a comment was there
+			context.LogError(NOT_INVERTIBLE)
+			context.command = []byte("INVERT")
+			return false
+		}
 		*cmd = context.activeFrame.Commands[l-1]
 		cmd.Invert = true
 		// delete old command as it will be reinserted with the new value
-- 
2.43.0


From 25a071269df26773a436791a6de312fe46c5525b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:32 +0000
Subject: [PATCH 32/49] fix: RMB options file with an invalid map marker was
 accepted in spite of the error reported

---
 rmbparse.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rmbparse.go b/rmbparse.go
index dbaafe3..bc002a1 100755
--- a/rmbparse.go
+++ b/rmbparse.go
@@ -752,6 +752,7 @@ func (c *ParseContext) parseRMBLine(line []byte, fromInvert bool) bool {
 				}
 				if len(command) != 3 && !MAP_SEQUEL.Match(command) {
 					c.LogError("unsupported map marker, expected MAP followed by 2 digits immediately, or followed by a space and a lump marker\n")
+					return false
 				}
 				fnd = true
 			}
-- 
2.43.0


From e197c019e735c5cb95caa1d97f776b59c44afb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:33 +0000
Subject: [PATCH 33/49] fix: RMB parser printed an address in place of what is
 wrong with a number

---
 rmbparse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rmbparse.go b/rmbparse.go
index bc002a1..bfd140d 100755
--- a/rmbparse.go
+++ b/rmbparse.go
@@ -135,7 +135,7 @@ func rmbParseNumeric(context *ParseContext, overallIndex int) (int, bool) {
 	num, err := strconv.Atoi(arg)
 	if err != nil {
 		context.LogError("option %s argument #%d is not a valid number: %s\n",
-			string(context.command), overallIndex, err.Error)
+			string(context.command), overallIndex, err.Error())
 		return 0, false
 	}
 	return num, true
@@ -160,7 +160,7 @@ func rmbParseList(context *ParseContext, overallIndex int, strict bool) ([]int,
 		num, err := strconv.Atoi(string(frsWrd))
 		if err != nil {
 			context.LogError("option %s argument #%d is not a valid list: %s\n",
-				string(context.command), overallIndex, err.Error)
+				string(context.command), overallIndex, err.Error())
 			return nil, false
 		}
 		list := []int{num}
-- 
2.43.0


From 99918844c2df9b7fa6f008dbe194512bd947a660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:34 +0000
Subject: [PATCH 34/49] fix: RMB option GROUP with a negative sector number
 crashed the program

---
 rejectRMB.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rejectRMB.go b/rejectRMB.go
index a07e3ce..55254c9 100755
--- a/rejectRMB.go
+++ b/rejectRMB.go
@@ -80,7 +80,7 @@ func (fr *RMBFrame) loadGroupsForFrame(groups []RejGroup) bool {
 		if cmd.Type == RMB_GROUP {
 			grI := fr.Commands[i].Data[0]
 			dupChecker := make(map[int]bool)
-			if grI >= len(groups) {
+			if grI < 0 || grI >= len(groups) {
 				fr.Commands[i].Error("Map doesn't contain sector %d, it only has %d sectors\n",
 					grI, len(groups))
 				continue
@@ -98,7 +98,7 @@ func (fr *RMBFrame) loadGroupsForFrame(groups []RejGroup) bool {
 					fr.Commands[i].Error("You need not explicitly list sector in its own group - every group always includes sector with the same index\n")
 					continue // because each group already includes corresponding sector
 				}
-				if v >= len(groups) {
+				if v < 0 || v >= len(groups) {
 					fr.Commands[i].Error("Map doesn't contain sector %d, it only has %d sectors\n",
 						v, len(groups))
 					continue
-- 
2.43.0


From ad2e5adefb26fa7c513af5cd37040b9a017e090f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:01 +0000
Subject: [PATCH 35/49] fix: RMB option LINE with too big or negative number
 affected some other line

---
 rejectRMB.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rejectRMB.go b/rejectRMB.go
index 55254c9..960c908 100755
--- a/rejectRMB.go
+++ b/rejectRMB.go
@@ -975,6 +975,13 @@ func (r *RejectInternalSetup) loadLineEffectsForFrame(rmbFrame *RMBFrame) bool {
 	// that makes sense to me. Also, manual didn't say options LEFT, RIGHT and
 	// LINE can be overridden by anything
 	for _, cmd := range rmbFrame.Commands {
+		switch cmd.Type {
+		case RMB_LEFT, RMB_RIGHT, RMB_LINE:
+			if int(uint16(cmd.Data[0])) != cmd.Data[0] {
+				cmd.Error("specified line number out of range: %d\n", cmd.Data[0])
+				continue
+			}
+		}
 		switch cmd.Type {
 		case RMB_LEFT:
 			{
-- 
2.43.0


From db73e5bc60a9ae6f772b29e3425ac66ec6041f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:59 +0000
Subject: [PATCH 36/49] fix: options without effect under NOPROCESS made groups
 merge the sourced reject

---
 reject.go     | 3 +++
 rejectFAST.go | 2 ++
 rejectSYMM.go | 2 ++
 3 files changed, 7 insertions(+)

diff --git a/reject.go b/reject.go
index f36f8ff..0de3221 100755
--- a/reject.go
+++ b/reject.go
@@ -640,6 +640,9 @@ func (r *RejectWork) setupLines(rsetup *RejectInternalSetup) (setupDone bool,
 	// first let's identify if we skip this setup
 	rmbFrame := r.rmbFrame
 	if NoProcess_TryLoad(r.numSectors, rsetup, r.rejectTable) {
+		// LENGTH, DISTANCE and LINE have no effect under NOPROCESS, so there is
+		// nothing to share: sourced visibility is what it is
+		r.groupShareVis = false
 		return false, "NOPROCESS is in effect. Physical LOS computations, and neighborship identification are skipped.\n"
 	}
 
diff --git a/rejectFAST.go b/rejectFAST.go
index 993dd69..719da41 100755
--- a/rejectFAST.go
+++ b/rejectFAST.go
@@ -310,6 +310,8 @@ func (r *FastRejectWork) setupLines(rsetup *RejectInternalSetup) (setupDone bool
 
 	rmbFrame := r.rmbFrame
 	if NoProcess_TryLoad(r.numSectors, rsetup, r.rejectTable) {
+
+		r.groupShareVis = false
 		return false, "NOPROCESS is in effect. Physical LOS computations, and neighborship identification are skipped.\n"
 	}
 
diff --git a/rejectSYMM.go b/rejectSYMM.go
index 426540f..f8d22a4 100755
--- a/rejectSYMM.go
+++ b/rejectSYMM.go
@@ -258,6 +258,8 @@ func (r *SymmetricRejectWork) setupLines(rsetup *RejectInternalSetup) (setupDone
 
 	rmbFrame := r.rmbFrame
 	if NoProcess_TryLoad(r.numSectors, rsetup, r.rejectTable) {
+
+		r.groupShareVis = false
 		return false, "NOPROCESS is in effect. Physical LOS computations, and neighborship identification are skipped.\n"
 	}
 
-- 
2.43.0


From 8330c254581ce6591353a2bc1c0304b695a3a18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:00 +0000
Subject: [PATCH 37/49] fix: BLIND 0/1 and SAFE 0/1 had no effect under
 NOPROCESS when other BLIND or SAFE options were present

---
 reject.go     |  2 ++
 rejectFAST.go | 13 ++++++++-----
 rejectRMB.go  | 40 ++++++++++++++++++++++++++--------------
 rejectSYMM.go | 13 ++++++++-----
 4 files changed, 44 insertions(+), 24 deletions(-)

diff --git a/reject.go b/reject.go
index 0de3221..be8c021 100755
--- a/reject.go
+++ b/reject.go
@@ -128,6 +128,7 @@ type RejectWork struct {
 	// rejectRMB.go junk
 	rmbFrame      *RMBFrame
 	distanceTable []uint16 // "distance in sector units" flattened i*j array
+	rejectSourced bool     // NOPROCESS succeeded
 	maxLength     uint16   // initialized in CreateDistanceTable, may be overridden in ApplyDistanceTable
 	fileControl   *FileControl
 	mapName       string
@@ -643,6 +644,7 @@ func (r *RejectWork) setupLines(rsetup *RejectInternalSetup) (setupDone bool,
 		// LENGTH, DISTANCE and LINE have no effect under NOPROCESS, so there is
 		// nothing to share: sourced visibility is what it is
 		r.groupShareVis = false
+		r.rejectSourced = true
 		return false, "NOPROCESS is in effect. Physical LOS computations, and neighborship identification are skipped.\n"
 	}
 
diff --git a/rejectFAST.go b/rejectFAST.go
index 719da41..b1bafc7 100755
--- a/rejectFAST.go
+++ b/rejectFAST.go
@@ -60,6 +60,7 @@ type FastRejectWork struct {
 
 	rmbFrame      *RMBFrame
 	distanceTable []uint16
+	rejectSourced bool
 	maxLength     uint16
 	fileControl   *FileControl
 	mapName       string
@@ -312,6 +313,7 @@ func (r *FastRejectWork) setupLines(rsetup *RejectInternalSetup) (setupDone bool
 	if NoProcess_TryLoad(r.numSectors, rsetup, r.rejectTable) {
 
 		r.groupShareVis = false
+		r.rejectSourced = true
 		return false, "NOPROCESS is in effect. Physical LOS computations, and neighborship identification are skipped.\n"
 	}
 
@@ -1621,7 +1623,7 @@ func (r *FastRejectWork) reportGetWriter() io.Writer {
 }
 
 func (fr *RMBFrame) FastprocessSimpleBlindSafeOptions(r *FastRejectWork, sectors []SectorRMB) {
-	if fr == nil || !fr.hasSimpleBlindSafe() {
+	if fr == nil || !fr.hasSimpleBlindSafe(r.rejectSourced) {
 		return
 	}
 
@@ -1634,11 +1636,12 @@ func (fr *RMBFrame) FastprocessSimpleBlindSafeOptions(r *FastRejectWork, sectors
 	fr.Parent.FastprocessSimpleBlindSafeOptions(r, sectors)
 
 	for _, command := range fr.Commands {
-		if command.Type == RMB_SIMPLE_BLIND {
-			r.prepareBlind(command, sectors)
+		if !command.isSimpleBlindSafe(r.rejectSourced) {
+			continue
 		}
-
-		if command.Type == RMB_SIMPLE_SAFE {
+		if command.Type == RMB_SIMPLE_BLIND || command.Type == RMB_BLIND {
+			r.prepareBlind(command, sectors)
+		} else {
 			r.prepareSafe(command, sectors)
 		}
 	}
diff --git a/rejectRMB.go b/rejectRMB.go
index 960c908..91504e8 100755
--- a/rejectRMB.go
+++ b/rejectRMB.go
@@ -1080,19 +1080,30 @@ func (fr *RMBFrame) checkTrivialBlindSafe() int {
 	return ret
 }
 
-func (fr *RMBFrame) hasSimpleBlindSafe() bool {
+// isSimpleBlindSafe tells whether the command is BLIND or SAFE that can be applied
+// without knowing distance between sectors. Normally, it is only so if there are
+// no BLIND or SAFE commands that need it (see Optimize), but under NOPROCESS
+// those have no effect and so don't matter
+func (cmd *RMBCommand) isSimpleBlindSafe(rejectSourced bool) bool {
+	switch cmd.Type {
+	case RMB_SIMPLE_BLIND, RMB_SIMPLE_SAFE:
+		return true
+	case RMB_BLIND, RMB_SAFE:
+		return rejectSourced && !cmd.Band && cmd.Data[0] <= 1
+	}
+	return false
+}
+
+func (fr *RMBFrame) hasSimpleBlindSafe(rejectSourced bool) bool {
 	if fr == nil {
 		return false
 	}
-	for _, cmd := range fr.Commands {
-		switch cmd.Type {
-		case RMB_SIMPLE_BLIND, RMB_SIMPLE_SAFE:
-			{
-				return true
-			}
+	for i := range fr.Commands {
+		if fr.Commands[i].isSimpleBlindSafe(rejectSourced) {
+			return true
 		}
 	}
-	return fr.Parent.hasSimpleBlindSafe()
+	return fr.Parent.hasSimpleBlindSafe(rejectSourced)
 }
 
 // Returns if NOPROCESS is not just present, it is also in effect (not
@@ -1172,14 +1183,14 @@ func (fr *RMBFrame) SetNaggerFromActiveNOPROCESS(nagger *RejectNagger) bool {
 
 func (fr *RMBFrame) processSimpleBlindSafeOptions(r *RejectWork,
 	sectors []SectorRMB) {
-	if fr == nil || !fr.hasSimpleBlindSafe() {
+	if fr == nil || !fr.hasSimpleBlindSafe(r.rejectSourced) {
 		return
 	}
 
 	// NOTE it is supposed to be only able to reach here if:
 	// 1. BLIND or/and SAFE are present with 0/1
 	// 2. There is no BLIND or SAFE option with BAND prefix, or values different
-	// from 0/1
+	// from 0/1 (or NOPROCESS is in effect, then such options are ignored)
 	// Because if (1) is not true, there is nothing to do here, and
 	// if (2) is not true, those are better handled as part of all BLIND / SAFE
 	// options and not separately. Especially since options can be combined,
@@ -1198,11 +1209,12 @@ func (fr *RMBFrame) processSimpleBlindSafeOptions(r *RejectWork,
 
 	// Populate sectors array with the BLIND/SAFE information
 	for _, command := range fr.Commands {
-		if command.Type == RMB_SIMPLE_BLIND {
-			r.prepareBlind(command, sectors)
+		if !command.isSimpleBlindSafe(r.rejectSourced) {
+			continue
 		}
-
-		if command.Type == RMB_SIMPLE_SAFE {
+		if command.Type == RMB_SIMPLE_BLIND || command.Type == RMB_BLIND {
+			r.prepareBlind(command, sectors)
+		} else {
 			r.prepareSafe(command, sectors)
 		}
 	}
diff --git a/rejectSYMM.go b/rejectSYMM.go
index f8d22a4..7a82bdc 100755
--- a/rejectSYMM.go
+++ b/rejectSYMM.go
@@ -60,6 +60,7 @@ type SymmetricRejectWork struct {
 
 	rmbFrame      *RMBFrame
 	distanceTable []uint16
+	rejectSourced bool
 	maxLength     uint16
 	fileControl   *FileControl
 	mapName       string
@@ -260,6 +261,7 @@ func (r *SymmetricRejectWork) setupLines(rsetup *RejectInternalSetup) (setupDone
 	if NoProcess_TryLoad(r.numSectors, rsetup, r.rejectTable) {
 
 		r.groupShareVis = false
+		r.rejectSourced = true
 		return false, "NOPROCESS is in effect. Physical LOS computations, and neighborship identification are skipped.\n"
 	}
 
@@ -1538,7 +1540,7 @@ func (r *SymmetricRejectWork) reportGetWriter() io.Writer {
 }
 
 func (fr *RMBFrame) SymmetricprocessSimpleBlindSafeOptions(r *SymmetricRejectWork, sectors []SectorRMB) {
-	if fr == nil || !fr.hasSimpleBlindSafe() {
+	if fr == nil || !fr.hasSimpleBlindSafe(r.rejectSourced) {
 		return
 	}
 
@@ -1551,11 +1553,12 @@ func (fr *RMBFrame) SymmetricprocessSimpleBlindSafeOptions(r *SymmetricRejectWor
 	fr.Parent.SymmetricprocessSimpleBlindSafeOptions(r, sectors)
 
 	for _, command := range fr.Commands {
-		if command.Type == RMB_SIMPLE_BLIND {
-			r.prepareBlind(command, sectors)
+		if !command.isSimpleBlindSafe(r.rejectSourced) {
+			continue
 		}
-
-		if command.Type == RMB_SIMPLE_SAFE {
+		if command.Type == RMB_SIMPLE_BLIND || command.Type == RMB_BLIND {
+			r.prepareBlind(command, sectors)
+		} else {
 			r.prepareSafe(command, sectors)
 		}
 	}
-- 
2.43.0


From a3779153a7ea2bc8e366f308c18f5df8531cf604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:02 +0000
Subject: [PATCH 38/49] fix: NOPROCESS could not source reject from levels of
 input file excluded with option -m

---
 vigilantbsp.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vigilantbsp.go b/vigilantbsp.go
index f5de5e0..d11461a 100755
--- a/vigilantbsp.go
+++ b/vigilantbsp.go
@@ -141,6 +141,11 @@ func main() {
 		scheduleRoot: ScheduleRoot,
 		readerAt:     f,
 	}
+	if config.FilterLevel != nil && RMB != nil {
+		// NOPROCESS may refer to levels that are not being rebuilt
+		mainFileControl.inputWad.scheduleRoot = LoadWadDirectory(false, le,
+			nil, nil, false, nil).scheduleRoot
+	}
 
 	if ScheduleRoot == nil {
 		Log.Error("No lumps - terminating.\n")
-- 
2.43.0


From 24f2c3ea3090ab2111fa7366b0e1449df20eda75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:32 +0000
Subject: [PATCH 39/49] fix: node detail heuristic: cover lines that have no
 segs

---
 node_intro.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/node_intro.go b/node_intro.go
index 5e4dced..d6b0e85 100755
--- a/node_intro.go
+++ b/node_intro.go
@@ -118,6 +118,9 @@ func MinorCmpFuncFromOption(userOption int) MinorIsBetterFunc {
 // which means it is not advised to be used for vanilla maps unless absolutely
 // necessary
 func IsTooDetailed(lines AbstractLines, linesToIgnore []bool, bounds *NodeBounds) bool {
+	// lines that produce no segs (tag 998, action 1086, zero length) may lie
+	// outside the area covered by segs
+	bounds = UnionNodeBounds(bounds, GetLineBounds(lines))
 	bmi := &BlockmapInput{
 		lines:           lines,
 		bounds:          *NodeBoundsToLevelBounds(bounds),
-- 
2.43.0


From e1b2c6987cff1908ff679702f69661432c59edcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:58 +0000
Subject: [PATCH 40/49] fix: nodes builder: don't crash on a level that has
 only one seg

---
 nodegen.go  | 5 +++--
 znodegen.go | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/nodegen.go b/nodegen.go
index 263c074..fd74687 100755
--- a/nodegen.go
+++ b/nodegen.go
@@ -415,8 +415,9 @@ func NodesGenerator(input *NodesInput) {
 	allSegs, intVertices := createSegs(input.lines, input.sidedefs,
 		input.linesToIgnore, input.nodeType == NODETYPE_ZDOOM_EXTENDED ||
 			input.nodeType == NODETYPE_ZDOOM_COMPRESSED, input.sectors)
-	if len(allSegs) == 0 {
-		Log.Error("Failed to create any SEGs (BAD). Quitting (%s)\n.", time.Since(start))
+	if len(allSegs) < 2 {
+		// a single seg cannot be divided into two sides of a node
+		Log.Error("Failed to create enough SEGs to build a node (BAD). Quitting (%s)\n.", time.Since(start))
 		// First respond to solid blocks control goroutine that we won't serve
 		// any requests to them
 		if !alreadyCloned {
diff --git a/znodegen.go b/znodegen.go
index 1385851..a88df8c 100755
--- a/znodegen.go
+++ b/znodegen.go
@@ -196,8 +196,9 @@ func ZExt_NodesGenerator(input *NodesInput) {
 	allSegs, intVertices := ZExt_createSegs(input.lines, input.sidedefs,
 		input.linesToIgnore, input.nodeType == NODETYPE_ZDOOM_EXTENDED ||
 			input.nodeType == NODETYPE_ZDOOM_COMPRESSED, input.sectors)
-	if len(allSegs) == 0 {
-		Log.Error("Failed to create any SEGs (BAD). Quitting (%s)\n.", time.Since(start))
+	if len(allSegs) < 2 {
+		// a single seg cannot be divided into two sides of a node
+		Log.Error("Failed to create enough SEGs to build a node (BAD). Quitting (%s)\n.", time.Since(start))
 
 		if !alreadyCloned {
 			input.bcontrol <- BconRequest{
-- 
2.43.0


From 0b65a9f59ca26c3f513ef85e96cbfeb1edea227f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:47 +0000
Subject: [PATCH 41/49] fix: scroller speed: remove the right lines when groups
 are interleaved

---
 level.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/level.go b/level.go
index 299dfda..3263104 100755
--- a/level.go
+++ b/level.go
@@ -27,6 +27,7 @@ import (
 	"math"
 	"os"
 	"reflect"
+	"sort"
 )
 
 const BRANCH_NODES = 1
@@ -876,6 +877,10 @@ func RefreshScrollerSpeed(linedefs []Linedef, vertices []Vertex, dryRun bool) ([
 	}
 	// now dryRun definitely false
 
+	// Culled lines were collected per group, but lines belonging to different
+	// groups may be interleaved
+	sort.Ints(linedefsToCull)
+
 	// Create new array of linedefs
 	ret := make([]Linedef, len(linedefs))
 
-- 
2.43.0


From 401fa92bab4ee5ef85f07cedbd4c4a943d9d5739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:48 +0000
Subject: [PATCH 42/49] fix: scroller speed: keep the dummy flags aligned after
 lines were removed

---
 level.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/level.go b/level.go
index 3263104..eeb90bb 100755
--- a/level.go
+++ b/level.go
@@ -899,6 +899,7 @@ func RefreshScrollerSpeed(linedefs []Linedef, vertices []Vertex, dryRun bool) ([
 		copy(ret[copyStart-removed:], linedefs[copyStart:len(linedefs)])
 	}
 	ret = ret[:len(linedefs)-removed]
+	dummies = dummies[:len(ret)]
 
 	// Locate all remaining linedefs, add them to dummies. Remember that
 	// some may have changed index, so compute new index
-- 
2.43.0


From d5df0d7bb6b0c2a6f54767d69d46b8f51d566efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:49 +0000
Subject: [PATCH 43/49] fix: scroller speed: a wall after its remote scroll
 line is not a dummy

---
 level.go | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/level.go b/level.go
index eeb90bb..57e1986 100755
--- a/level.go
+++ b/level.go
@@ -796,6 +796,26 @@ func RefreshScrollerSpeed(linedefs []Linedef, vertices []Vertex, dryRun bool) ([
 		return linedefs, nil
 	}
 
+	// The wall itself always precedes its dummies
+	owners := make(map[ScrollerGroup]int)
+	for i, linedef := range linedefs {
+		scrollerGroup := ScrollerGroup{
+			StartVertex: linedef.StartVertex,
+			EndVertex:   linedef.EndVertex,
+			FrontSdef:   linedef.FrontSdef,
+		}
+		if _, exists := owners[scrollerGroup]; !exists {
+			owners[scrollerGroup] = i
+		}
+	}
+	// Remote scroll lines may come both before the wall they control and after
+	// its dummies, thus being first or not among producers is not enough to
+	// tell a dummy
+	isDummy := func(scrollerGroup ScrollerGroup, idx, j int) bool {
+		return linedefs[j].Action == 48 && j != owners[scrollerGroup] &&
+			(idx != 0 || (linedefs[j].Tag == 0 && linedefs[j].Flags == 0))
+	}
+
 	// Otherwise we need to match scrolling effect multipliers to the tags, and
 	// also mark all dummy linedefs as excluded from blockmap and BSP tree
 	dummies := make([]bool, len(linedefs))
@@ -826,8 +846,8 @@ func RefreshScrollerSpeed(linedefs []Linedef, vertices []Vertex, dryRun bool) ([
 		for idx, j := range producers {
 			if linedefs[j].Action == 48 {
 				currPower++
-				// Also let's reset tag value (except for the first, of course)
-				if idx != 0 {
+				// Also let's reset tag value (except for the wall, of course)
+				if isDummy(scrollerGroup, idx, j) {
 					linedefs[j].Tag = 0
 					// Only if dryRun == true are dummies recorded here rather
 					// than later, because if dryRun == false some may be
@@ -855,7 +875,7 @@ func RefreshScrollerSpeed(linedefs []Linedef, vertices []Vertex, dryRun bool) ([
 				if removed == remove {
 					break
 				}
-				if idx > 0 && linedefs[j].Action == 48 {
+				if isDummy(scrollerGroup, idx, j) {
 					linedefsToCull = append(linedefsToCull, j)
 					removed++
 				}
@@ -907,8 +927,8 @@ func RefreshScrollerSpeed(linedefs []Linedef, vertices []Vertex, dryRun bool) ([
 		producers := scrollerToProducerMap[scrollerGroup]
 		for idx, j := range producers {
 			if linedefs[j].Action == 48 {
-				// If it's the first line, is not dummy
-				if idx != 0 {
+				// If it's the wall itself, is not dummy
+				if isDummy(scrollerGroup, idx, j) {
 					// Actualize the number or skip altogether, if it is
 					// deleted
 					deleted := false
-- 
2.43.0


From fd0a76a5c67696c7858093201a167e248e98975a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:03 +0000
Subject: [PATCH 44/49] fix: don't allocate memory for a wad directory that
 exceeds the file

---
 wad.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/wad.go b/wad.go
index 8c9eea4..80bca3d 100644
--- a/wad.go
+++ b/wad.go
@@ -598,6 +598,17 @@ func TryReadWadDirectory(isInputFile bool, f *os.File,
 		return nil, errors.New(fmt.Sprintf("Couldn't move to wad's directory structure (%d offset): %s", wh.DirectoryStart, err.Error()))
 	}
 
+	// The header may be damaged: don't allocate memory for a directory that
+	// can't be there
+	fi, err := f.Stat()
+	if err != nil {
+		return nil, errors.New(fmt.Sprintf("Couldn't determine file size: %s", err.Error()))
+	}
+	if int64(wh.DirectoryStart)+int64(wh.LumpCount)*int64(binary.Size(LumpEntry{})) > fi.Size() {
+		return nil, errors.New(fmt.Sprintf("Wad's directory (%d lumps, %d offset) doesn't fit in the file",
+			wh.LumpCount, wh.DirectoryStart))
+	}
+
 	// Read in whole directory at once
 	le := make([]LumpEntry, wh.LumpCount, wh.LumpCount)
 	err = binary.Read(f, binary.LittleEndian, le)
-- 
2.43.0


From a2132efbf8170868dd560fa84a87526c8f4a90fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:01 +0000
Subject: [PATCH 45/49] fix: don't allocate memory for lumps that exceed the
 file

---
 level.go       |  1 +
 vigilantbsp.go |  5 +++++
 wad.go         | 17 +++++++++++++++++
 3 files changed, 23 insertions(+)

diff --git a/level.go b/level.go
index 57e1986..3dee35e 100755
--- a/level.go
+++ b/level.go
@@ -138,6 +138,7 @@ func (l *Level) DoLevel(le []LumpEntry, idx int, rejectsize map[int]uint32,
 			l.NodesLumpIdx = idx
 		} else {
 			copyLump := true
+			CheckLumpBoundsOrFail(f, &le[idx], fileControl)
 			if bytes.Equal(bname, []byte("LINEDEFS")) {
 				l.LinedefsLumpIdx = idx
 				if action.LevelFormat == FORMAT_DOOM {
diff --git a/vigilantbsp.go b/vigilantbsp.go
index d11461a..a632c49 100755
--- a/vigilantbsp.go
+++ b/vigilantbsp.go
@@ -171,6 +171,11 @@ func main() {
 	rejectStart := uint32(binary.Size(wh))
 	var zerosToInsert uint32
 	if config.Reject == REJECT_ZEROFILLED {
+		for i := range le {
+			if string(ByteSliceBeforeTerm(le[i].Name[:])) == "SECTORS" {
+				CheckLumpBoundsOrFail(f, &le[i], &mainFileControl)
+			}
+		}
 		zerosToInsert = troll.Compile()
 	} else {
 		zerosToInsert = 0
diff --git a/wad.go b/wad.go
index 80bca3d..74647ff 100644
--- a/wad.go
+++ b/wad.go
@@ -112,8 +112,25 @@ func WriteNZerosOrFail(a io.Writer, n uint32, fname string, fc *FileControl) {
 	}
 }
 
+// CheckLumpBoundsOrFail must be called before allocating memory for a lump, as
+// size in a damaged directory may be anything up to 4 GB
+func CheckLumpBoundsOrFail(f *os.File, entry *LumpEntry, fc *FileControl) {
+	if entry.Size == 0 {
+		return
+	}
+	fi, err := f.Stat()
+	if err != nil {
+		fc.Fail("Couldn't determine file size: %s\n", err)
+	}
+	if int64(entry.FilePos)+int64(entry.Size) > fi.Size() {
+		fc.Fail("Lump %s (offset %d, size %d) exceeds the file\n",
+			ByteSliceBeforeTerm(entry.Name[:]), entry.FilePos, entry.Size)
+	}
+}
+
 // ReadLumpOrFail returns contents of a lump from input file exactly as they are
 func ReadLumpOrFail(f *os.File, entry *LumpEntry, fc *FileControl) []byte {
+	CheckLumpBoundsOrFail(f, entry, fc)
 	buf := make([]byte, entry.Size)
 	_, err := f.ReadAt(buf, int64(entry.FilePos))
 	if err != nil {
-- 
2.43.0


From dfad05c34d7bb071d28061cdc26934b76f02f375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:02 +0000
Subject: [PATCH 46/49] fix: report linedefs and sidedefs with out of range
 references

---
 level.go | 55 +++++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 55 insertions(+)

diff --git a/level.go b/level.go
index 3dee35e..1912d2a 100755
--- a/level.go
+++ b/level.go
@@ -99,6 +99,7 @@ func (l *Level) DoLevel(le []LumpEntry, idx int, rejectsize map[int]uint32,
 	l.mapName = GetLumpName(le, action)
 	loadedThings := false
 	loadedLinedefsAndVertices := false
+	checkedSidedefs := false
 	blockmapNeedsSectors := config.RemoveNonCollideable
 	rejectSkip := config.Reject == REJECT_ZEROFILLED || config.Reject == REJECT_DONTTOUCH
 	rejectDone := rejectSkip
@@ -192,6 +193,10 @@ func (l *Level) DoLevel(le []LumpEntry, idx int, rejectsize map[int]uint32,
 		if !loadedLinedefsAndVertices && (linedefs != nil ||
 			hexenLinedefs != nil) && vertices != nil {
 			loadedLinedefsAndVertices = true
+			if config.RebuildNodes || config.RebuildBlockmap || !rejectSkip {
+				l.checkVerticesOrFail(linedefs, hexenLinedefs, len(vertices),
+					fileControl)
+			}
 			if action.LevelFormat == FORMAT_DOOM {
 				// Scroll effects are for doom format only, not hexen
 				if config.RebuildBlockmap && config.RebuildNodes {
@@ -261,6 +266,18 @@ func (l *Level) DoLevel(le []LumpEntry, idx int, rejectsize map[int]uint32,
 			})
 		}
 
+		if !checkedSidedefs && loadedLinedefsAndVertices &&
+			sidedefs != nil && sectors != nil {
+			checkedSidedefs = true
+			// nodes and reject are not built when either of these is empty
+			if ((config.RebuildNodes || !rejectSkip) &&
+				len(sidedefs) > 0 && len(sectors) > 0) ||
+				(config.RebuildBlockmap && blockmapNeedsSectors) {
+				l.checkSidedefsOrFail(absLines, sidedefs, len(sectors),
+					fileControl)
+			}
+		}
+
 		if !blockmapDone && loadedLinedefsAndVertices && (!blockmapNeedsSectors ||
 			(sectors != nil && sidedefs != nil)) {
 			blockmapDone = true // don't trigger twice
@@ -682,6 +699,44 @@ func declineRejectNagging(nagger *RejectNagger) []byte {
 	return nil
 }
 
+// Damaged level might refer to vertices that don't exist
+func (l *Level) checkVerticesOrFail(linedefs []Linedef, hexenLinedefs []HexenLinedef,
+	cntVertices int, fileControl *FileControl) {
+	check := func(i int, v1, v2 uint16) {
+		if int(v1) >= cntVertices || int(v2) >= cntVertices {
+			fileControl.Fail("Level %s: linedef %d references a vertex that doesn't exist.\n",
+				l.mapName, i)
+		}
+	}
+	for i := range linedefs {
+		check(i, linedefs[i].StartVertex, linedefs[i].EndVertex)
+	}
+	for i := range hexenLinedefs {
+		check(i, hexenLinedefs[i].StartVertex, hexenLinedefs[i].EndVertex)
+	}
+}
+
+// Damaged level might refer to sidedefs and sectors that don't exist
+func (l *Level) checkSidedefsOrFail(lines AbstractLines, sidedefs []Sidedef,
+	cntSectors int, fileControl *FileControl) {
+	for i := uint16(0); i < lines.Len(); i++ {
+		for _, front := range []bool{true, false} {
+			sdef := lines.GetSidedefIndex(i, front)
+			if sdef == SIDEDEF_NONE {
+				continue
+			}
+			if int(sdef) >= len(sidedefs) {
+				fileControl.Fail("Level %s: linedef %d references a sidedef that doesn't exist.\n",
+					l.mapName, i)
+			}
+			if int(sidedefs[sdef].Sector) >= cntSectors {
+				fileControl.Fail("Level %s: sidedef %d references a sector that doesn't exist.\n",
+					l.mapName, sdef)
+			}
+		}
+	}
+}
+
 func (l *Level) WriteNodes(nodesResult NodesResult) {
 	l.wriBus.SendGenericLump(l.newLines.GetLinedefs(),
 		l.LinedefsLumpIdx, "LINEDEFS", "") // only vertices renumbering might have happened, nothing else... yet
-- 
2.43.0


From 57b375b1aa10f0645718909c90ac689a2bc138dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:26 +0000
Subject: [PATCH 47/49] fix: polyobject spawn spot at the height of a vertex
 could mark the wrong sector

---
 universal_interfaces.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/universal_interfaces.go b/universal_interfaces.go
index 8082cf6..2866100 100755
--- a/universal_interfaces.go
+++ b/universal_interfaces.go
@@ -602,18 +602,19 @@ func (o *HexenLinedefs) markPolyobjPoint(thingNum int, x, y int16) {
 	//       intersect it, choosing the one with the closest distance.
 	//       If the point is sitting directly on a (two-sided) line,
 	//       then we mark the sectors on both sides.
-	yInt := int(y)
+	//       The ray is cast half a unit higher, so that it never goes through
+	//       a vertex: lines that meet there would be at the same distance, and
+	//       not every one of them has the sector of the point on that side.
+	//       (There are no lines within POLY_BOX_SZ units from here)
+	yCut := float64(y) + 0.5
 	bestDist := float64(99999999.0) // > maximum possible distance (max = 65536 * sqrt(2))
 	bestMatch := -1
 	for i, _ := range o.linedefs {
 		x1, y1, x2, y2 := o.GetAllXY(uint16(i))
-		if y1 == y2 {
+		if (yCut > float64(y1)) == (yCut > float64(y2)) {
 			continue
 		}
-		if (yInt > y1 && yInt > y2) || (yInt < y1 && yInt < y2) {
-			continue
-		}
-		xCut := float64(x1) + float64(x2-x1)*float64(yInt-y1)/
+		xCut := float64(x1) + float64(x2-x1)*(yCut-float64(y1))/
 			float64(y2-y1) - float64(x)
 		if math.Abs(xCut) < math.Abs(bestDist) {
 			bestMatch = i
-- 
2.43.0


From c42331e0c01832084c1b3f887ed4e8c1ce0c8a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:20 +0000
Subject: [PATCH 48/49] fix: --roots with -nm=1 or -nm=2 dropped lines
 collinear with a line of the other kind

Collinear lines are scored once. If the scored one was of the kind not
asked for, the others on the same straight line were never tried, and if
none was left at all lines of any kind were tried instead.
---
 picknode.go | 21 +++++++++++++++------
 znodegen.go | 15 +++++++++++----
 2 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/picknode.go b/picknode.go
index 60b6fcf..25c11b7 100755
--- a/picknode.go
+++ b/picknode.go
@@ -2008,15 +2008,24 @@ func PickNode_ZennodeDepth(w *NodesWork, ts *NodeSeg, bbox *NodeBounds,
 			w.zenScores[0].scoreTotal,
 			w.zenScores[0].equivSplit,
 			w.zenScores[0].segSplit
+		ofKind := func(seg *NodeSeg) bool {
+			// Segs that have a partner are assumed to have come from two-sided
+			// lines, and the others from one-sided lines
+			if seg.partner == nil {
+				return rootChoiceMethod&MROOT_ONESIDED != 0
+			}
+			return rootChoiceMethod&MROOT_TWOSIDED != 0
+		}
 		for ; j < len(w.zenScores) && i < rootN; j++ {
 			seg := w.zenScores[j].seg
-			if seg.partner == nil && (rootChoiceMethod&MROOT_ONESIDED == 0) {
-				continue
+			// Only one of collinear segs is scored. If it is not of the kind asked
+			// for, another one on the same line may be
+			for alt := ts; !ofKind(seg) && alt != nil; alt = alt.next {
+				if alt.alias == seg.alias && ofKind(alt) {
+					seg = alt
+				}
 			}
-			// If not choosing segs from two-sided lines, then all segs that have
-			// partner are assumed to have come from two-sided lines and thus skipped
-			// There should not be any no problem with this assumption
-			if seg.partner != nil && (rootChoiceMethod&MROOT_TWOSIDED == 0) {
+			if !ofKind(seg) {
 				continue
 			}
 			i++
diff --git a/znodegen.go b/znodegen.go
index a88df8c..2fed0a0 100755
--- a/znodegen.go
+++ b/znodegen.go
@@ -3493,13 +3493,20 @@ func ZExt_PickNode_ZennodeDepth(w *ZExt_NodesWork, ts *ZExt_NodeSeg, bbox *NodeB
 			w.zenScores[0].scoreTotal,
 			w.zenScores[0].equivSplit,
 			w.zenScores[0].segSplit
+		ofKind := func(seg *ZExt_NodeSeg) bool {
+			if seg.partner == nil {
+				return rootChoiceMethod&MROOT_ONESIDED != 0
+			}
+			return rootChoiceMethod&MROOT_TWOSIDED != 0
+		}
 		for ; j < len(w.zenScores) && i < rootN; j++ {
 			seg := w.zenScores[j].seg
-			if seg.partner == nil && (rootChoiceMethod&MROOT_ONESIDED == 0) {
-				continue
+			for alt := ts; !ofKind(seg) && alt != nil; alt = alt.next {
+				if alt.alias == seg.alias && ofKind(alt) {
+					seg = alt
+				}
 			}
-
-			if seg.partner != nil && (rootChoiceMethod&MROOT_TWOSIDED == 0) {
+			if !ofKind(seg) {
 				continue
 			}
 			i++
-- 
2.43.0


From 84a086662714d0b05dd75c3a8b1beb57c4742ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:20 +0000
Subject: [PATCH 49/49] fix: multi-tree compared the heights of a leaf and of a
 subtree by different measures

HeightOfNodes() of a single node is 1, so a child of the root that is a
node counted one more than it is high, but a subsector counted as 0. The
difference in height was off by one when one child of the root is a
subsector.
---
 multitree_plain.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/multitree_plain.go b/multitree_plain.go
index d0210cd..2001adb 100755
--- a/multitree_plain.go
+++ b/multitree_plain.go
@@ -480,10 +480,10 @@ func getBSPHeights(rootNode *NodeInProcess) (int, int) {
 	hLeft := 0
 	hRight := 0
 	if rootNode.nextL != nil {
-		hLeft = HeightOfNodes(rootNode.nextL) + 1
+		hLeft = HeightOfNodes(rootNode.nextL)
 	}
 	if rootNode.nextR != nil {
-		hRight = HeightOfNodes(rootNode.nextR) + 1
+		hRight = HeightOfNodes(rootNode.nextR)
 	}
 	return hLeft, hRight
 }
-- 
2.43.0

