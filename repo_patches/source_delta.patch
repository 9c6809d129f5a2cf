From a2d9a69a02ee3db972e229745f2580c6af6f10a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 001/103] fix: hash table of size 1 divided by zero in zhash

---
 heclib/heclib_c/src/Internal/zhash.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/heclib/heclib_c/src/Internal/zhash.c b/heclib/heclib_c/src/Internal/zhash.c
index c6fd794..982360b 100644
--- a/heclib/heclib_c/src/Internal/zhash.c
+++ b/heclib/heclib_c/src/Internal/zhash.c
@@ -149,6 +149,10 @@ int zhash (long long *ifltab, const char *pathname, int pathnameLength, int *tab
 	if (fraction == 0.50) {
 		ibit--;
 	}
+	//  A hash table of size 1 has no bits; always process at least one
+	if (ibit < 1) {
+		ibit = 1;
+	}
 
 	//  Find the number of characters that include full number groups
 	//  This rounds up to full number of 8 bit char to process when
-- 
2.43.0


From 44bc9bc16036a3099134fa462b5c1b0439f123c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:10 +0000
Subject: [PATCH 002/103] fix: zrename of a missing record deleted the target,
 and time series renames skipped the target check

The source record is looked up before anything is changed, the D and E part
substitution for time series happens before the new pathname is checked, and
the size of the new information block is computed from the new pathname.
---
 heclib/heclib_c/src/Public/zrename.c | 72 ++++++++++++++++++----------
 1 file changed, 46 insertions(+), 26 deletions(-)

diff --git a/heclib/heclib_c/src/Public/zrename.c b/heclib/heclib_c/src/Public/zrename.c
index 97396aa..36929cf 100644
--- a/heclib/heclib_c/src/Public/zrename.c
+++ b/heclib/heclib_c/src/Public/zrename.c
@@ -156,15 +156,58 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 		}
 	}
 	
+	//  Be sure that the old record exists before anything is changed
+	ifltab[zdssKeys.kaddInfoLastPath] = 0;
+	status = zcheckInternal(ifltab, oldPathname, 1);
+	if (zisError(status)) {
+		free(newPath);
+		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zrename_ID);
+	}
+	if (status != STATUS_RECORD_FOUND) {
+		if (zmessageLevel(ifltab, MESS_METHOD_UTILITY_ID, MESS_LEVEL_GENERAL)) {
+			zmessage2(ifltab, ZRENAME_NOT_EXIST, oldPathname);
+		}
+		free(newPath);
+		return STATUS_RECORD_NOT_FOUND;
+	}
+
+	//  If the pathname is time series, do not allow the D or E parts to be renamed!
+	//  That data has to be transformed, not renamed
+	i8toi4(ifltab[zdssKeys.kbinTypeAndCatSort], &dataType, &temp);
+	if ((dataType >= DATA_TYPE_RTS) && (dataType < DATA_TYPE_PD)) {
+		free(newPath);
+		zpathnamePartPositions(newPathname, strlen(newPathname), positions, 7);
+		start = positions[5];
+		end = positions[6];
+		len = (int)strlen(newPathname) + (int)strlen(oldPathname) + 12;
+		newPath = calloc(len, 1);
+		if (!newPath) {
+			return zerrorProcessing(ifltab, DSS_FUNCTION_zrename_ID,
+				zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, 0, 0,
+				zdssErrorSeverity.MEMORY_ERROR,
+				newPathname, "Allocating space for modified pathname");
+		}
+		stringCopy(newPath, len, newPathname, positions[3]);
+		zpathnamePartPositions(oldPathname, strlen(oldPathname), positions, 7);
+		stringCat(newPath, len, &oldPathname[positions[3]], (positions[5] - positions[3]));
+		stringCat(newPath, len, &newPathname[start], (end - start));
+		if ((lenOld == (int)strlen(newPath)) && zstringCompare(oldPathname, newPath, lenOld)) {
+			//  Only the case of the pathname remains to be changed
+			status = zrename(ifltab, oldPathname, newPath);
+			free(newPath);
+			return status;
+		}
+	}
+
 	//  Be sure the new pathname does not already exist
 	ifltab[zdssKeys.kaddInfoLastPath] = 0;
-	status = zcheckInternal(ifltab, newPathname, 1);
+	status = zcheckInternal(ifltab, newPath, 1);
 	if (zisError(status)) {
 		free(newPath);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zrename_ID);
 	}
 	if (status == STATUS_RECORD_FOUND) {
-		status = zdeleteInternal(ifltab, newPathname, 0);
+		status = zdeleteInternal(ifltab, newPath, 0);
 		if (zisError(status)) {
 			free(newPath);
 			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zrename_ID);
@@ -190,7 +233,7 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 	}
 
 	//  Compute the new info block size
-	numberInfoNew = zdssVals.infoSize + numberLongsInBytes((int)ifltab[zdssKeys.klenLastPath]);
+	numberInfoNew = zdssVals.infoSize + numberLongsInBytes((int)strlen(newPath));
 
 	//  Force the internals to be loaded during the check
 	ifltab[zdssKeys.kaddInfoLastPath] = 0;
@@ -210,29 +253,6 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 	}
 
 
-	//  If the pathname is time series, do not allow the D or E parts to be renamed!
-	//  That data has to be transformed, not renamed
-	i8toi4(ifltab[zdssKeys.kbinTypeAndCatSort], &dataType, &temp);
-	if ((dataType >= DATA_TYPE_RTS) && (dataType < DATA_TYPE_PD)) {
-		free(newPath);
-		zpathnamePartPositions(newPathname, strlen(newPathname), positions, 7);
-		start = positions[5];
-		end = positions[6];
-		len = (int)strlen(newPathname) + 12;
-		newPath = calloc(len, 1);
-		if (!newPath) {
-			return zerrorProcessing(ifltab, DSS_FUNCTION_zrename_ID,
-				zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, 0, 0,
-				zdssErrorSeverity.MEMORY_ERROR,
-				newPathname, "Allocating space for modified pathname");
-		}
-		stringCopy(newPath, len, newPathname, positions[3]);
-		zpathnamePartPositions(oldPathname, strlen(oldPathname), positions, 7);
-		stringCat(newPath, len, &oldPathname[positions[3]], (positions[5] - positions[3]));
-		stringCat(newPath, len, &newPathname[start], (end - start));
-	}
-
-
 	//  First, mark the pathname bin status as remamed
 	address = ifltab[zdssKeys.kpathBinAddress] + zdssBinKeys.kbinStatus;
 	binStatus = REC_STATUS_RENAMED;
-- 
2.43.0


From 340390b58ee3b0cbf2d46312b335a267f4f2a179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:10 +0000
Subject: [PATCH 003/103] fix: zundelete of a pathname with a valid record
 created a duplicate record

---
 heclib/heclib_c/src/Internal/zdeleteInternal.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Internal/zdeleteInternal.c b/heclib/heclib_c/src/Internal/zdeleteInternal.c
index 9d08a8b..e245144 100644
--- a/heclib/heclib_c/src/Internal/zdeleteInternal.c
+++ b/heclib/heclib_c/src/Internal/zdeleteInternal.c
@@ -120,7 +120,19 @@ int zdeleteInternal(long long *ifltab, const char *pathname, int boolUndelete)
 
 	//  Force the internals to be loaded during the check
 	ifltab[zdssKeys.kaddInfoLastPath] = 0;
-	status = zreadInfo(ifltab, pathname, readAction);
+	status = STATUS_RECORD_NOT_FOUND;
+	if (boolUndelete) {
+		//  A valid record with this pathname takes precedence over a deleted one;
+		//  un-deleting would leave two records with the same pathname
+		status = zcheckInternal(ifltab, pathname, REC_STATUS_VALID);
+		ifltab[zdssKeys.kaddInfoLastPath] = 0;
+	}
+	if (status == STATUS_RECORD_NOT_FOUND) {
+		status = zreadInfo(ifltab, pathname, readAction);
+	}
+	else if (status == STATUS_RECORD_FOUND) {
+		status = STATUS_RECORD_NOT_FOUND;
+	}
 	if (zisError(status)) {
 		zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 		return zerrorUpdate(ifltab, status, functionID);
-- 
2.43.0


From d7a1adc29a697f977adf96bde0d584f524ae5a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:44 +0000
Subject: [PATCH 004/103] fix: in-place rewrite of a record compared unrounded
 sizes and could overwrite the next record

Every array starts on an 8-byte boundary, so sizes have to be rounded up per
array.  The space released when a record is moved is in 8-byte words too.
---
 heclib/heclib_c/src/Internal/zwriteExisting.c | 35 +++++++++++--------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zwriteExisting.c b/heclib/heclib_c/src/Internal/zwriteExisting.c
index b51104d..4e0e3e6 100644
--- a/heclib/heclib_c/src/Internal/zwriteExisting.c
+++ b/heclib/heclib_c/src/Internal/zwriteExisting.c
@@ -252,16 +252,17 @@ int zwriteExisting(long long *ifltab, zStructTransfer* ztransfer,
 	numberInfo = zdssVals.infoSize + numberLongsInBytes((int)ifltab[zdssKeys.klenLastPath]);
 
 	//  Compute original and new record sizes.
-	originalSize =
-		(int)info[zdssInfoKeys.kinfoInternalHeadNumber] +
-		(int)info[zdssInfoKeys.kinfoHeader2Number] +
-		(int)info[zdssInfoKeys.kinfoUserHeadNumber] +
-		(int)info[zdssInfoKeys.kinfoAllocatedSize];
-	newSize =
-		ztransfer->internalHeaderNumber +
-		ztransfer->header2Number +
-		ztransfer->userHeaderNumber +
-		ztransfer->totalAllocatedSize;
+	//  Each array starts on a long boundary, so sizes must be rounded up to longs
+	originalSize = numberIntsInLongs(
+		numberLongsInInts((int)info[zdssInfoKeys.kinfoInternalHeadNumber]) +
+		numberLongsInInts((int)info[zdssInfoKeys.kinfoHeader2Number]) +
+		numberLongsInInts((int)info[zdssInfoKeys.kinfoUserHeadNumber]) +
+		numberLongsInInts((int)info[zdssInfoKeys.kinfoAllocatedSize]));
+	newSize = numberIntsInLongs(
+		numberLongsInInts(ztransfer->internalHeaderNumber) +
+		numberLongsInInts(ztransfer->header2Number) +
+		numberLongsInInts(ztransfer->userHeaderNumber) +
+		numberLongsInInts(ztransfer->totalAllocatedSize));
 
 
 	if (newSize > originalSize) {
@@ -286,13 +287,15 @@ int zwriteExisting(long long *ifltab, zStructTransfer* ztransfer,
 
 		//  Check that the old info and data areas are contiguous.  If so, we can reclaim their space
 		//  A rename op may have moved the info block
-		if ((ifltab[zdssKeys.kaddInfoLastPath] + (long long)(originalSize + numberInfo)) ==
-			(info[zdssInfoKeys.kinfoValues1Address] + info[zdssInfoKeys.kinfoAllocatedSize])) {
-			zreleaseFileSpace(ifltab, ifltab[zdssKeys.kaddInfoLastPath], (originalSize + numberInfo));
+		//  (originalSize is in ints, space is released in longs)
+		longSize = numberLongsInInts(originalSize) + numberInfo;
+		if ((ifltab[zdssKeys.kaddInfoLastPath] + (long long)longSize) ==
+			(info[zdssInfoKeys.kinfoValues1Address] + (long long)numberLongsInInts((int)info[zdssInfoKeys.kinfoAllocatedSize]))) {
+			zreleaseFileSpace(ifltab, ifltab[zdssKeys.kaddInfoLastPath], longSize);
 		}
 		else {
 			//  this would have been done in release space
-			fileHeader[zdssFileKeys.kdead] += (long long)(originalSize) + numberInfo;
+			fileHeader[zdssFileKeys.kdead] += (long long)longSize;
 		}
 
 		//  Update the version and expansionNumber values
@@ -435,8 +438,10 @@ int zwriteExisting(long long *ifltab, zStructTransfer* ztransfer,
 			//  space in the allocated space area
 			//  (The allocated space on input should be the data size,
 			//  not the size allocated in the earlier record.)
+			//  (Round to longs, so that none of the space is lost on the next write)
 			diff = originalSize - newSize;
-			ztransfer->totalAllocatedSize += diff;
+			ztransfer->totalAllocatedSize =
+				numberIntsInLongs(numberLongsInInts(ztransfer->totalAllocatedSize)) + diff;
 		}
 		if (zmessageLevel(ifltab, MESS_METHOD_WRITE_ID, MESS_LEVEL_INTERNAL_DIAG_1)) {
 			_snprintf_s(messageString, sizeof(messageString), _TRUNCATE,
-- 
2.43.0


From 6ea3b7d158582871f1602998074d9ef3d00e0370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:50 +0000
Subject: [PATCH 005/103] fix: reuse of a larger deleted pathname slot cut off
 the following pathname bins

zbinUpdate only reuses a slot of the same size; when the slot found by the
search was larger, a new bin was linked into a bin that already had a
successor and every later record in that chain was lost.
---
 heclib/heclib_c/src/Internal/zcheckInternal.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zcheckInternal.c b/heclib/heclib_c/src/Internal/zcheckInternal.c
index ebaf8e0..67c0495 100644
--- a/heclib/heclib_c/src/Internal/zcheckInternal.c
+++ b/heclib/heclib_c/src/Internal/zcheckInternal.c
@@ -402,8 +402,8 @@ int zcheckInternal(long long *ifltab, const char* pathname, int statusWanted)
 			if ((binStatus == REC_STATUS_DELETED) || (binStatus == REC_STATUS_MOVED) && (ifltab[zdssKeys.kreclaimLevel] > RECLAIM_NONE)) {
 				//  Did we already find space?
 			   if (ifltab[zdssKeys.kbinWithSpace] == 0) {
-				   //  Is this spot big enough?
-					if (pathSizeIn <= pathnameSize) {
+				   //  Is this spot the same size?  (zbinUpdate requires the sizes to match)
+					if (pathSizeIn == pathnameSize) {
 						//  Save the first address where this is found
 						//  (Note - this operation is only valid with the current pathname)
 						ifltab[zdssKeys.kbinWithSpace] = binAddress;
-- 
2.43.0


From badd4c70e30fbbf04e69650ad16a079946fb2faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:27 +0000
Subject: [PATCH 006/103] fix: zundelete left an undefined record status in the
 pathname bin

---
 heclib/heclib_c/src/Internal/zdeleteInternal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Internal/zdeleteInternal.c b/heclib/heclib_c/src/Internal/zdeleteInternal.c
index e245144..f7468f9 100644
--- a/heclib/heclib_c/src/Internal/zdeleteInternal.c
+++ b/heclib/heclib_c/src/Internal/zdeleteInternal.c
@@ -76,7 +76,7 @@ int zdeleteInternal(long long *ifltab, const char *pathname, int boolUndelete)
 	fileHeader = (long long *)ifltab[zdssKeys.kfileHeader];
 	if (boolUndelete) {
 		functionID = DSS_FUNCTION_zundelete_ID;
-		deleteStatus = (long long)REC_STATUS_VALID;
+		deleteStatus = (long long)REC_STATUS_PRIMARY;
 		readAction = REC_STATUS_DELETED;
 	}
 	else {
-- 
2.43.0


From aa3a44ccb27c014b8491bd329e326fe8837272aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:06 +0000
Subject: [PATCH 007/103] fix: deleting a renamed record released the space of
 its neighbours for reuse

---
 heclib/heclib_c/src/Internal/zdeleteInternal.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zdeleteInternal.c b/heclib/heclib_c/src/Internal/zdeleteInternal.c
index f7468f9..56e4a91 100644
--- a/heclib/heclib_c/src/Internal/zdeleteInternal.c
+++ b/heclib/heclib_c/src/Internal/zdeleteInternal.c
@@ -221,14 +221,14 @@ int zdeleteInternal(long long *ifltab, const char *pathname, int boolUndelete)
 				endAddress1 = ifltab[zdssKeys.kaddInfoLastPath] + (long long)releasedAmount;
 				endAddress2 = info[zdssInfoKeys.kinfoValues1Address] +
 					numberLongsInInts((int)info[zdssInfoKeys.kinfoValues1Number]) +
-					numberLongsInInts((int)info[zdssInfoKeys.kinfoValues2Number]);
+					numberLongsInInts((int)info[zdssInfoKeys.kinfoValues2Number]) +
+					numberLongsInInts((int)info[zdssInfoKeys.kinfoValues3Number]);
 				if (endAddress1 == endAddress2) {
 					zreleaseFileSpace(ifltab, ifltab[zdssKeys.kaddInfoLastPath], releasedAmount);
 				}
 				else {
-					//  Shouldn't have this happen
-					//fileHeader[zdssFileKeys.kdead] += releasedAmount;
-					zreleaseFileSpace(ifltab, ifltab[zdssKeys.kaddInfoLastPath], releasedAmount);
+					//  A rename moved the info block, so this is not one piece of space
+					fileHeader[zdssFileKeys.kdead] += releasedAmount;
 				}
 			}
 			//  Decrement counters
-- 
2.43.0


From 7594d69c49889738effdb72c72e0816d06145533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:30 +0000
Subject: [PATCH 008/103] fix: undeleting with reclamation switched off left
 the record in the free-space table

---
 heclib/heclib_c/src/Internal/zdeleteInternal.c | 3 ++-
 heclib/heclib_c/src/Internal/zreclaimSet.c     | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zdeleteInternal.c b/heclib/heclib_c/src/Internal/zdeleteInternal.c
index 56e4a91..1ad9778 100644
--- a/heclib/heclib_c/src/Internal/zdeleteInternal.c
+++ b/heclib/heclib_c/src/Internal/zdeleteInternal.c
@@ -142,7 +142,8 @@ int zdeleteInternal(long long *ifltab, const char *pathname, int boolUndelete)
 		//  If undeleting, make sure reclamation is off, otherwise this space
 		//  could be used by something else
 		//  (at this point, we know it has not been used because hashes match in info.)
-		if (boolUndelete && (ifltab[zdssKeys.kreclaimLevel] != RECLAIM_NONE)) {
+		//  The space may have been released earlier, even if reclamation is off now
+		if (boolUndelete) {
 			//  Turn off reclamation for this delete
 			status = zreclaimSet(ifltab, RECLAIM_NONE);
 			if (zisError(status)) {
diff --git a/heclib/heclib_c/src/Internal/zreclaimSet.c b/heclib/heclib_c/src/Internal/zreclaimSet.c
index 645ee04..fdf441a 100644
--- a/heclib/heclib_c/src/Internal/zreclaimSet.c
+++ b/heclib/heclib_c/src/Internal/zreclaimSet.c
@@ -43,7 +43,7 @@ int zreclaimSet(long long *ifltab, int reclaimLevel)
 {
 	long long boolWritingNow;
 	long long *fileHeader;
-	int zero;
+	long long zero = 0;
 	int size;
 	int status;
 
-- 
2.43.0


From 1efead442a60934f896fd2b4afe07ab43f752146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:07 +0000
Subject: [PATCH 009/103] fix: extending the free-space table left the file
 without its end-of-file flag

---
 heclib/heclib_c/src/Internal/zreclaimRead.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/heclib/heclib_c/src/Internal/zreclaimRead.c b/heclib/heclib_c/src/Internal/zreclaimRead.c
index 0cadfc4..ceb9df1 100644
--- a/heclib/heclib_c/src/Internal/zreclaimRead.c
+++ b/heclib/heclib_c/src/Internal/zreclaimRead.c
@@ -74,6 +74,13 @@ long long* zreclaimRead (long long *ifltab, int *iarrayNumber, int boolRelease)
 					zreclaimWrite (ifltab);
 					fileHeader[zdssFileKeys.kreclaimSegmentsUsed]++;
 					istat = zput(ifltab, address, zero, -size, 2);
+					//  This table is now the last thing in the file
+					if (istat == STATUS_OKAY) {
+						istat = zwriteEOF(ifltab);
+					}
+					if (istat != STATUS_OKAY) {
+						return (long long *)0;
+					}
 					fileHeader[zdssFileKeys.kreclaimSegAvailableAdd] = address;
 				}
 			}
-- 
2.43.0


From 027bd026eff15ce4ec2122520244e5527b4d59e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:28 +0000
Subject: [PATCH 010/103] fix: reallocate the pathname bin when the file was
 rebuilt with larger bins

---
 heclib/heclib_c/src/Internal/zpermRead.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/heclib/heclib_c/src/Internal/zpermRead.c b/heclib/heclib_c/src/Internal/zpermRead.c
index 3944d29..d2b53bc 100644
--- a/heclib/heclib_c/src/Internal/zpermRead.c
+++ b/heclib/heclib_c/src/Internal/zpermRead.c
@@ -1,5 +1,6 @@
 
 #include <stdio.h>
+#include <stdlib.h>
 #include <string.h>
 
 #include "heclib7.h"
@@ -84,6 +85,12 @@ int zpermRead (long long *ifltab)
 	//  The file header we just read will have the sizes
 
 	//  Pathname Bin
+	//  (A squeeze may have rebuilt the file with larger pathname bins since the memory was allocated)
+	if ((ifltab[zdssKeys.kpathBin] != 0) &&
+		(((long long *)ifltab[zdssKeys.kpathBin])[-1] < fileHeader[zdssFileKeys.kbinSize])) {
+		free((long long *)ifltab[zdssKeys.kpathBin] - 2);
+		ifltab[zdssKeys.kpathBin] = 0;
+	}
 	if (ifltab[zdssKeys.kpathBin] == 0) {
 		if ((fileHeader[zdssFileKeys.kbinSize] < 20) || (fileHeader[zdssFileKeys.kbinSize] >1000)){
 			return zerrorProcessing(ifltab, DSS_FUNCTION_zpermRead_ID, zdssErrorCodes.INVALID_HEADER_PARAMETER,	0,
-- 
2.43.0


From c5d959a5f633b324e318d6377ee299a3746d414c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:28 +0000
Subject: [PATCH 011/103] fix: copy a squeezed file back by its size, not up to
 a data word equal to the end-of-file flag

---
 heclib/heclib_c/src/Internal/copyFile.c | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/copyFile.c b/heclib/heclib_c/src/Internal/copyFile.c
index 308d84d..4262d4e 100644
--- a/heclib/heclib_c/src/Internal/copyFile.c
+++ b/heclib/heclib_c/src/Internal/copyFile.c
@@ -45,7 +45,6 @@ int copyFile(long long *ifltab, int handleTo)
 	int numberReads;
 	int numberInts;
 	int i;
-	int j;
 	long long iaddress;
 	static int isize = 32768;
 	long long space[32768];
@@ -65,12 +64,8 @@ int copyFile(long long *ifltab, int handleTo)
 		}
 		if (handleTo > 0) {
 			if ((i+1) == numberReads) {
-				for (j=0; j<isize; j++) {
-					if (space[j] == DSS_END_FILE_FLAG) {
-						numberInts = (j + 1) * 2;
-						break;
-					}
-				}
+				//  Copy through the end of file flag (data may contain a word with the same value)
+				numberInts = (int)(fileHeader[zdssFileKeys.kfileSize] - iaddress + 1) * 2;
 			}
 			istat = zwriteDisk (handleTo, 0, iaddress, space, numberInts);
 			if (istat) {
-- 
2.43.0


From 2b8e796e4432572daaa64a536f664f69b9c842b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:28 +0000
Subject: [PATCH 012/103] fix: data that looks like a record header is not a
 record when copying or checking a file

---
 heclib/heclib_c/src/Public/zcopyFile.c       | 14 +++++++++++++-
 heclib/heclib_c/src/SemiPublic/zcheckLinks.c | 14 ++++++++++++++
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Public/zcopyFile.c b/heclib/heclib_c/src/Public/zcopyFile.c
index 79f5f9e..c8cab0d 100644
--- a/heclib/heclib_c/src/Public/zcopyFile.c
+++ b/heclib/heclib_c/src/Public/zcopyFile.c
@@ -1,6 +1,6 @@
 #include <stdio.h>
 #include <stdlib.h>
-#include <stdlib.h>
+#include <string.h>
 
 #include "zdssKeys.h"
 #include "zdssMessages.h"
@@ -76,6 +76,8 @@ int zcopyFile(long long *ifltabFrom, long long *ifltabTo, int statusWanted)
 	int readSize;
 	long long fileBuff[FILE_BUFF_SIZE];
 	long long recHeader[3];
+	int tableHash;
+	long long pathnameHash;
 	char pathname[MAX_PATHNAME_LENGTH];
 	int pathLength;
 	char fullFilename[256];
@@ -175,6 +177,9 @@ int zcopyFile(long long *ifltabFrom, long long *ifltabTo, int statusWanted)
 						if (numberInfo > zdssVals.maxInfoSize) {
 							numberInfo = zdssVals.maxInfoSize;
 						}
+						if ((infoAddress + (long long)numberInfo) > fileSize) {
+							continue;
+						}
 						status = zget(ifltabFrom, infoAddress, (int *)ifltabFrom[zdssKeys.kinfo], numberInfo, 2);
 						if (zisError(status)) {
 							return zerrorUpdate(ifltabFrom, status, DSS_FUNCTION_zcopyFile_ID);
@@ -186,6 +191,13 @@ int zcopyFile(long long *ifltabFrom, long long *ifltabTo, int statusWanted)
 						charInt((void *)&info[zdssInfoKeys.kinfoPathname], pathname, pathLength, sizeof(pathname), 0, 1, 0);
 						pathname[pathLength] = '\0';
 
+						//  Data can contain words that look like a record header;
+						//  a real one holds the hash code of its own pathname
+						zhash(ifltabFrom, pathname, pathLength, &tableHash, &pathnameHash);
+						if (((int)strlen(pathname) != pathLength) || (info[zdssInfoKeys.kinfoHash] != pathnameHash)) {
+							continue;
+						}
+
 						if (zgetVersion(ifltabTo) == 7) {
 							status = zcopyRecordInternal(ifltabFrom, ifltabTo, pathname, 0);
 						}
diff --git a/heclib/heclib_c/src/SemiPublic/zcheckLinks.c b/heclib/heclib_c/src/SemiPublic/zcheckLinks.c
index 61f0642..fb75941 100644
--- a/heclib/heclib_c/src/SemiPublic/zcheckLinks.c
+++ b/heclib/heclib_c/src/SemiPublic/zcheckLinks.c
@@ -1,3 +1,5 @@
+#include <string.h>
+
 #include "zdssKeys.h"
 #include "zdssMessages.h"
 #include "zdssVals.h"
@@ -52,6 +54,8 @@ int zcheckLinks(long long *ifltab)
 	int readSize = 4028;
 	long long fileBuff[4028];
 	long long recHeader[2];
+	int tableHash;
+	long long pathnameHash;
 	long long info1[100];
 	long long info2[100];
 	long long *fileHeader;
@@ -111,11 +115,21 @@ int zcheckLinks(long long *ifltab)
 						pathLen = (int)recHeader[1];
 						infoAddress = address + (long long)i;
 						numberInfo1 = zdssVals.infoSize + numberLongsInBytes(pathLen);
+						if ((infoAddress + (long long)numberInfo1) > fileSize) {
+							continue;
+						}
 						status = zget(ifltab, infoAddress, (int *)info1, numberInfo1, 2);
 						//  Get the pathname from the info block
 						charInt((void *)&info1[zdssInfoKeys.kinfoPathname], (void *)pathname, pathLen, sizeof(pathname), 0, 1, 0);
 						pathname[pathLen] = '\0';
 
+						//  Data can contain words that look like a record header;
+						//  a real one holds the hash code of its own pathname
+						zhash(ifltab, pathname, pathLen, &tableHash, &pathnameHash);
+						if (((int)strlen(pathname) != pathLen) || (info1[zdssInfoKeys.kinfoHash] != pathnameHash)) {
+							continue;
+						}
+
 						//  Now double check that it exists
 						status = zreadInfoBlock(ifltab, pathname, 0, info2, sizeof(info2), &numberInfo2);
 						if (zisError(status)) {
-- 
2.43.0


From 655adc279e0823cb9245ee192e4f7a5175fe9ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:53 +0000
Subject: [PATCH 013/103] fix: character notes were misaligned when records of
 a retrieval window do not exist

---
 heclib/heclib_c/src/Internal/ztsRegReadBlock.c |  8 +++++---
 heclib/heclib_c/src/Internal/ztsRetrieveReg7.c | 10 ++++++----
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/ztsRegReadBlock.c b/heclib/heclib_c/src/Internal/ztsRegReadBlock.c
index 62508d8..cc3824c 100644
--- a/heclib/heclib_c/src/Internal/ztsRegReadBlock.c
+++ b/heclib/heclib_c/src/Internal/ztsRegReadBlock.c
@@ -192,6 +192,7 @@ int ztsRegReadBlock(long long *ifltab, const char *pathname, int boolExists,
 	int iposValues;
 	int iposQuality;
 	int iposNotes;
+	int iposCnotes;
 	int status;
 	int i;
 	int version;
@@ -382,6 +383,7 @@ int ztsRegReadBlock(long long *ifltab, const char *pathname, int boolExists,
 		iposValues = 0;
 		iposQuality = 0;
 		iposNotes = 0;
+		iposCnotes = 0;
 		*valueElementSizeRead = 0;
 		*qualityElementSize = 0;
 		*inoteElementSize = 0;
@@ -408,12 +410,12 @@ int ztsRegReadBlock(long long *ifltab, const char *pathname, int boolExists,
 				zsetUndefined(&notes[iposNotes], notesSizeRequested);
 				iposNotes += notesSizeRequested;
 			}
-			if ((sizeCNotesRemaning > 0) && (iposNotes < sizeCNotesRemaning)) {
-				cnotes[iposNotes++] = '\0';
+			if ((sizeCNotesRemaning > 0) && (iposCnotes < sizeCNotesRemaning)) {
+				cnotes[iposCnotes++] = '\0';
 			}
 		}
 		if (cnotes) {
-			*numberCnotes = iposNotes;
+			*numberCnotes = iposCnotes;
 		}
 		else {
 			*numberCnotes = 0;
diff --git a/heclib/heclib_c/src/Internal/ztsRetrieveReg7.c b/heclib/heclib_c/src/Internal/ztsRetrieveReg7.c
index affb916..5684f4c 100644
--- a/heclib/heclib_c/src/Internal/ztsRetrieveReg7.c
+++ b/heclib/heclib_c/src/Internal/ztsRetrieveReg7.c
@@ -406,15 +406,17 @@ int ztsRetrieveReg7(long long *ifltab, zStructTimeSeries *tss,
 					tss->inoteElementSize = inoteElementSize;
 				}
 				if (timeSeriesRecordSizes.tsCnotesLength) {
-					tss->cnotes = (char *)calloc((size_t)timeSeriesRecordSizes.tsCnotesLength, CHAR_SIZE);
+					//  Values without a note take a null character each, including
+					//  those in blocks that do not exist
+					tss->cnotesSize = timeSeriesRecordSizes.tsCnotesLength + numberToRead;
+					tss->cnotes = (char *)calloc((size_t)tss->cnotesSize, CHAR_SIZE);
 					if (!tss->cnotes) {
 						if (buffer) free(buffer);
 						return zerrorProcessing(ifltab, DSS_FUNCTION_ztsRetrieveReg_ID,
-							zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, timeSeriesRecordSizes.tsCnotesLength, 0,
+							zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, tss->cnotesSize, 0,
 							zdssErrorSeverity.MEMORY_ERROR, tss->pathname, "Allocating cnotes array");
 					}
 					tss->allocated[zSTRUCT_TS_cnotes] = 1;
-					tss->cnotesSize = timeSeriesRecordSizes.tsCnotesLength;
 				}
 			}
 			else {
@@ -640,8 +642,8 @@ int ztsRetrieveReg7(long long *ifltab, zStructTimeSeries *tss,
 				charLong(&info[zdssInfoKeys.kinfoProgram], tss->programName, 0, zdssVals.numberProgram, 0, 1);
 				foundOne = 1;
 			} 
-			totalNumberCnotesRead += lengthCNotes;
 		}
+		totalNumberCnotesRead += lengthCNotes;
 
 
 		//  Increment block start date
-- 
2.43.0


From 39da4177acbe92fc15ae8b46ef8d53cd7f93876a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:33 +0000
Subject: [PATCH 014/103] fix: zpathnameSetPart read before the pathname and
 allowed one character too many when a part grows

---
 heclib/heclib_c/src/Public/zpathnameSetPart.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/heclib/heclib_c/src/Public/zpathnameSetPart.c b/heclib/heclib_c/src/Public/zpathnameSetPart.c
index 3cd2d92..08f78f3 100644
--- a/heclib/heclib_c/src/Public/zpathnameSetPart.c
+++ b/heclib/heclib_c/src/Public/zpathnameSetPart.c
@@ -95,7 +95,7 @@ int zpathnameSetPart (char *pathname, size_t sizeofPathname, const char *part, i
 		//  To do this, we must increment negatively.
 		diff = newLength - oldLength;
 		endPath = positions[6] + diff;
-		if (endPath > (int)sizeofPathname) {
+		if (endPath >= (int)sizeofPathname) {
 			//  We don't have enough room to expand the pathname!
 			return STATUS_NOT_OKAY;
 		}
@@ -103,7 +103,7 @@ int zpathnameSetPart (char *pathname, size_t sizeofPathname, const char *part, i
 		pathname[endPath] = '\0';
 		endPath--;
 		//  Move the end backwards
-		for (i=endPath; i>=end; i--) {
+		for (i=endPath; i>=(end - 1 + diff); i--) {
 			pathname[i] = pathname[i-diff];
 		}
 		//  Now copy the new part into the old part's position
-- 
2.43.0


From 5fe0657a0127c630a710c277ac54b5f6b6c59ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:59 +0000
Subject: [PATCH 015/103] fix: first and last value times of a merged yearly
 block (leap years and offset to the block start)

---
 heclib/heclib_c/src/Internal/ztsRegStoreBlock.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c b/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c
index 57a197d..277c7e9 100644
--- a/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c
+++ b/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c
@@ -780,11 +780,14 @@ int ztsRegStoreBlock(long long *ifltab, zStructTimeSeries *tss, const char *path
 											notes, inoteElementSize,
 											cnotesToStore, cnotesToStoreLen,
 											&firstValid, &lastValid);
-		///////////////////  FIX ME - use time offset!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!
-		incrementTime(intervalSeconds, firstValid, julianBlockDate, intervalSeconds,
+		//  Value zero of the block is blockStartPosition periods before the first value passed in for this block
+		//  (This accounts for any time offset and for years of different lengths)
+		posRelativeToStart = positionInValues - blockStartPosition + firstValid;
+		incrementTime(intervalSeconds, posRelativeToStart, startJulian, startSeconds,
 						&julianFirstValue, &secondsFirstValue);
 		//  And the date/time of the last value we're storing	
-		incrementTime(intervalSeconds, lastValid, julianBlockDate, intervalSeconds,
+		posRelativeToStart = positionInValues - blockStartPosition + lastValid;
+		incrementTime(intervalSeconds, posRelativeToStart, startJulian, startSeconds,
 						&julianLastValue, &secondsLastValue);
 		
 		blockStartPosition = 0;
-- 
2.43.0


From 54a66ea5739db3ef09d531effe9f35a636d713e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:18 +0000
Subject: [PATCH 016/103] fix: first and last value times recorded for a
 regular block ignored the time offset

---
 heclib/heclib_c/src/Internal/ztsRegStoreBlock.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c b/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c
index 277c7e9..6a161ec 100644
--- a/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c
+++ b/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c
@@ -813,6 +813,11 @@ int ztsRegStoreBlock(long long *ifltab, zStructTimeSeries *tss, const char *path
 
 		//  Now store the block in the DSS file
 		// --------------   Main Write ------------------
+		//  The times above are standard times; the values are at the standard time less any offset
+		if (tss->timeOffsetSeconds > 0) {
+			ztsOffsetAdjustToOffset(tss->timeOffsetSeconds, intervalSeconds, &julianFirstValue, &secondsFirstValue);
+			ztsOffsetAdjustToOffset(tss->timeOffsetSeconds, intervalSeconds, &julianLastValue, &secondsLastValue);
+		}
 		ifltab[zdssKeys.kdataFirstDate] = i4toi8(julianFirstValue, secondsFirstValue);
 		ifltab[zdssKeys.kdataLastDate] = i4toi8(julianLastValue, secondsLastValue);
 
-- 
2.43.0


From e2df4e222903251c2133bb5e81e6d9d6b4bc7291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:26 +0000
Subject: [PATCH 017/103] fix: replacing irregular values dropped values after
 the replaced ones and misaligned their notes

---
 heclib/heclib_c/src/Internal/ztsIrregMergeBlocks.c | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/ztsIrregMergeBlocks.c b/heclib/heclib_c/src/Internal/ztsIrregMergeBlocks.c
index cc7f8c0..cc2151a 100644
--- a/heclib/heclib_c/src/Internal/ztsIrregMergeBlocks.c
+++ b/heclib/heclib_c/src/Internal/ztsIrregMergeBlocks.c
@@ -429,6 +429,7 @@ void ztsIrregMergeBlocks(long long *ifltab, int storageFlag,
 				//  Copy the times before the replacement
 				//  Are we before the start of the time window?  (if after, bypass this value)
 				//   is (timesRead[icountRead] < tss->timeWindow->startJulian)?
+				if (icountRead >= numberRead) break;
 				icompare = compareTimes(julianStartBlockDate, timesRead[icountRead], 0, timeGranularityRead,
 					tss->timeWindow->startJulian, tss->timeWindow->startTimeSeconds, 0, 1);
 				if ((icountRead < numberRead) && (icompare < 0) && (timesRead[icountRead] < timesToStore[0]) && !boolFromStartOfBlock) {
@@ -530,11 +531,6 @@ void ztsIrregMergeBlocks(long long *ifltab, int storageFlag,
 						icnotesPosOut += ispos;
 						icnotesPosToStore += ispos;
 					}
-					//  Count the characters in the read string and increment
-					if (cnotesReadLen > 0) {
-						ispos = copyLines(cdummy, (size_t)0, &cnotesRead[icnotesPosRead], (size_t)(cnotesReadLen - icnotesPosRead), 1);
-						icnotesPosRead += ispos;
-					}
 				}
 				icountTotal++;
 				icountStore++;
@@ -547,11 +543,7 @@ void ztsIrregMergeBlocks(long long *ifltab, int storageFlag,
 		// Copy the remaining read data, if any
 		if (!boolToEndOfBlock) {
 			numberLeft = numberToStore + numberRead - icountTotal;
-			icnotesPosRead = 0;
 			for (i=0; i<numberLeft; i++) {
-				if (icountTotal >= combinedTotal) {
-					break;
-				}
 				if (icountRead < numberRead) {
 					if ((numberToStore > 0) && (timesToStore[numberToStore-1] >= timesRead[icountRead])) {
 						icountRead++;
@@ -559,7 +551,6 @@ void ztsIrregMergeBlocks(long long *ifltab, int storageFlag,
 							ispos = copyLines(cdummy, (size_t)0, &cnotesRead[icnotesPosRead], (size_t)(cnotesReadLen - icnotesPosRead), 1);
 							icnotesPosRead += ispos;
 						}
-/////////////////   FIX ME - NEED TO MOVE THE CHARS COUNT FORWARD TOO!!!
 					}
 					else {
 						if (zmessageLevel(ifltab, MESS_METHOD_TS_WRITE_ID, MESS_LEVEL_INTERNAL_DIAG_2)) {
-- 
2.43.0


From 7c4ad645efc44ce42b26167d54f2a9337c1e8398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:33 +0000
Subject: [PATCH 018/103] fix: neighbouring values of an irregular window were
 missed when no value is in the window or its record does not exist

---
 .../heclib_c/src/Internal/ztsIrregReadBlock.c |  29 ++--
 .../heclib_c/src/Internal/ztsRetrieveIrreg7.c | 130 +++++++++---------
 2 files changed, 77 insertions(+), 82 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/ztsIrregReadBlock.c b/heclib/heclib_c/src/Internal/ztsIrregReadBlock.c
index 6fbefb5..917e75a 100644
--- a/heclib/heclib_c/src/Internal/ztsIrregReadBlock.c
+++ b/heclib/heclib_c/src/Internal/ztsIrregReadBlock.c
@@ -216,7 +216,6 @@ int ztsIrregReadBlock(long long *ifltab, const char *pathname, long long *info,
 
 	int numberStored;
 	int numberExpanded;
-	int number;
 	int size;
 
 	int *timesThisRecord;
@@ -236,7 +235,7 @@ int ztsIrregReadBlock(long long *ifltab, const char *pathname, long long *info,
 	int boolInRange;
 	int i;
 	int j;
-	int k;
+	int iPrevious;
 	int cnotesLength;
 	int start;
 	int end;
@@ -502,19 +501,20 @@ int ztsIrregReadBlock(long long *ifltab, const char *pathname, long long *info,
 		//  or ends within this block, we need to return that portion
 		ipos = 0;
 		lastValueStatus = -1;
+		//  The previous value is the last one in this block before the time window
+		iPrevious = -1;
 		if (boolRetrievePrevious) {
-			number = numberExpanded + 1;
-		}
-		else {
-			number = numberExpanded;
+			for (i=0; i<numberExpanded; i++) {
+				isTimeInRange(timesThisRecord[i], &lastValueStatus, blockGranularity, julianStartBlockDate, timeWindow);
+				if (lastValueStatus >= 0)
+					break;
+				iPrevious = i;
+			}
+			lastValueStatus = -1;
 		}
-		i = -1;
 		start = numberExpanded + 1;
 		end = -1;
-		for (k=0; k<number; k++) {
-			i++;
-			if (i == numberExpanded)
-				break;
+		for (i=0; i<numberExpanded; i++) {
 			boolInRange = isTimeInRange(timesThisRecord[i], &lastValueStatus, blockGranularity, julianStartBlockDate, timeWindow);
 			if (zmessageLevel(ifltab, MESS_METHOD_TS_READ_ID, MESS_LEVEL_INTERNAL_DIAG_2) || zmessageLevel(ifltab, MESS_METHOD_TS_WRITE_ID, MESS_LEVEL_INTERNAL_DIAG_2)) {
 				zmessageDebugInt(ifltab, DSS_FUNCTION_ztsIrregReadBlock_ID, "boolInRange for time: ", boolInRange);
@@ -524,11 +524,10 @@ int ztsIrregReadBlock(long long *ifltab, const char *pathname, long long *info,
 				cleanTime(&julian, &itime, blockGranularity);
 				ztsDateMessage(ifltab, DSS_FUNCTION_ztsIrregReadBlock_ID, "Time for this value: ", julian, itime);
 			}
-			if (boolRetrievePrevious && boolInRange) {
-				if (i > 0) i--;
-				boolRetrievePrevious = 0;
+			if (i == iPrevious) {
+				boolInRange = 1;
 			}
-			if (boolRetrieveSucceeding && !boolInRange && (ipos > 0)) {
+			if (boolRetrieveSucceeding && !boolInRange && (lastValueStatus > 0)) {
 				boolInRange = 1;
 				boolRetrieveSucceeding = 0;
 			}
diff --git a/heclib/heclib_c/src/Internal/ztsRetrieveIrreg7.c b/heclib/heclib_c/src/Internal/ztsRetrieveIrreg7.c
index 85f59f0..3972b4c 100644
--- a/heclib/heclib_c/src/Internal/ztsRetrieveIrreg7.c
+++ b/heclib/heclib_c/src/Internal/ztsRetrieveIrreg7.c
@@ -233,46 +233,44 @@ int ztsRetrieveIrreg7(long long *ifltab, zStructTimeSeries *tss,
 			if (zisError(status)) {
 				return zerrorUpdate(ifltab, status, DSS_FUNCTION_ztsRetrieveIrreg_ID);
 			}
-			//  if status != 0, then the record was not found, or
-			//  it is not time series.  If it is not found, then
-			//  we'll have a tough time get the first last dates
-			//  (we only said we'd look at one record past for the subsequent value)
-			//  If so, let the remainder of the code deal with it.
+			//  If the record was not found, or does not have the subsequent value,
+			//  then we need the record after it
+			icompare = 0;
 			if (status == STATUS_RECORD_FOUND) {
 				//  Okay, does the last block have the
 				//  subsequent value in it's time window?
 				icompare = compareTimes(lastJulian, lastSeconds, 0, 1, tss->timeWindow->endJulian,
 										tss->timeWindow->endTimeSeconds, 0, 1);
-				if (icompare > 0) {
-					//  yes
-					//  Don't do anything at this point, retrieveFlag will take care of
+			}
+			if (icompare > 0) {
+				//  yes
+				//  Don't do anything at this point, retrieveFlag will take care of
+			}
+			else {
+				//  No;  last time in record is same as or before time requested.
+				//  We need the record after for the subsequent value
+				//  Increment block date
+				julian = ztsIncrementBlock(endBlockJulian, blockSize);
+				julianToDate(julian, 4, blockDate, sizeof(blockDate));
+				zpathnameSetPart (path, sizeof(path), blockDate, 4);
+				status = ztsGetFirstLastRecordTimes(ifltab, path,
+													&firstJulian, &firstSeconds,
+													&lastJulian, &lastSeconds, 1);
+				if (zisError(status)) {
+					return zerrorUpdate(ifltab, status, DSS_FUNCTION_ztsRetrieveIrreg_ID);
 				}
-				else {
-					//  No;  last time in record is same as or before time requested.
-					//  We need the record after for the subsequent value
-					//  Increment block date
-					julian = ztsIncrementBlock(endBlockJulian, blockSize);
-					julianToDate(julian, 4, blockDate, sizeof(blockDate));
-					zpathnameSetPart (path, sizeof(path), blockDate, 4);
-					status = ztsGetFirstLastRecordTimes(ifltab, path,
-														&firstJulian, &firstSeconds,
-														&lastJulian, &lastSeconds, 1);
-					if (zisError(status)) {
-						return zerrorUpdate(ifltab, status, DSS_FUNCTION_ztsRetrieveIrreg_ID);
+				//  If not, found, let rest of code handle it.
+				if (status == STATUS_RECORD_FOUND) {
+					//  Yes - adjust the time window to include the first
+					//  value of the subsequent block.  Modify flag to reflect this.
+					endBlockJulian = julian;
+					tss->timeWindow->endJulian = firstJulian;
+					tss->timeWindow->endTimeSeconds = firstSeconds;
+					if (retrieveFlag == 3) {
+						retrieveFlag = 1;
 					}
-					//  If not, found, let rest of code handle it.
-					if (status == STATUS_RECORD_FOUND) {
-						//  Yes - adjust the time window to include the first
-						//  value of the subsequent block.  Modify flag to reflect this.
-						endBlockJulian = julian;
-						tss->timeWindow->endJulian = firstJulian;
-						tss->timeWindow->endTimeSeconds = firstSeconds;
-						if (retrieveFlag == 3) {
-							retrieveFlag = 1;
-						}
-						else {
-							retrieveFlag = 0;
-						}
+					else {
+						retrieveFlag = 0;
 					}
 				}
 			}
@@ -291,47 +289,45 @@ int ztsRetrieveIrreg7(long long *ifltab, zStructTimeSeries *tss,
 			if (zisError(status)) {
 				return zerrorUpdate(ifltab, status, DSS_FUNCTION_ztsRetrieveIrreg_ID);
 			}
-			//  if status != 0, then the record was not found, or
-			//  it is not time series.  If it is not found, then
-			//  we'll have a tough time get the first last dates
-			//  (we only said we'd look back one record for the previous data)
-			//  If so, let the remainder of the code deal with it.
+			//  If the record was not found, or does not have the previous value,
+			//  then we need the record before it
+			icompare = 0;
 			if (status == STATUS_RECORD_FOUND) {
 				//  Okay, does the block we are about to read have the
 				//  previous value in it's time window?
 				icompare = compareTimes(firstJulian, firstSeconds, 0, 1, tss->timeWindow->startJulian,
 										tss->timeWindow->startTimeSeconds, 0, 1);
-				if (icompare < 0) {
-					//  yes
-					boolRetrievePrevious = 1;
+			}
+			if (icompare < 0) {
+				//  yes
+				boolRetrievePrevious = 1;
+			}
+			else {
+				//  No;  First time in record is same as or after time requested.
+				//  We need the record before for the previous value
+				//  Decrement block date
+				julian = startBlockJulian - 1;
+				julian = ztsIrregGetBlockStart(julian, blockSize);
+				julianToDate(julian, 4, blockDate, sizeof(blockDate));
+				zpathnameSetPart (path, sizeof(path), blockDate, 4);
+				status = ztsGetFirstLastRecordTimes(ifltab, path,
+													&firstJulian, &firstSeconds,
+													&lastJulian, &lastSeconds, 1);
+				if (zisError(status)) {
+					return zerrorUpdate(ifltab, status, DSS_FUNCTION_ztsRetrieveIrreg_ID);
 				}
-				else {
-					//  No;  First time in record is same as or after time requested.
-					//  We need the record before for the previous value
-					//  Decrement block date
-					julian = startBlockJulian - 1;
-					julian = ztsIrregGetBlockStart(julian, blockSize);
-					julianToDate(julian, 4, blockDate, sizeof(blockDate));
-					zpathnameSetPart (path, sizeof(path), blockDate, 4);
-					status = ztsGetFirstLastRecordTimes(ifltab, path,
-														&firstJulian, &firstSeconds,
-														&lastJulian, &lastSeconds, 1);
-					if (zisError(status)) {
-						return zerrorUpdate(ifltab, status, DSS_FUNCTION_ztsRetrieveIrreg_ID);
+				//  If not, found, let rest of code handle it.
+				if (status == STATUS_RECORD_FOUND) {
+					//  Yes - adjust the time window to include the last
+					//  value of the previous block.  Modify flag to reflect this.
+					startBlockJulian = julian;
+					tss->timeWindow->startJulian = lastJulian;
+					tss->timeWindow->startTimeSeconds = lastSeconds;
+					if (retrieveFlag == 3) {
+						retrieveFlag = 2;
 					}
-					//  If not, found, let rest of code handle it.
-					if (status == STATUS_RECORD_FOUND) {
-						//  Yes - adjust the time window to include the last
-						//  value of the previous block.  Modify flag to reflect this.
-						startBlockJulian = julian;
-						tss->timeWindow->startJulian = lastJulian;
-						tss->timeWindow->startTimeSeconds = lastSeconds;
-						if (retrieveFlag == 3) {
-							retrieveFlag = 2;
-						}
-						else {
-							retrieveFlag = 0;
-						}
+					else {
+						retrieveFlag = 0;
 					}
 				}
 			}
-- 
2.43.0


From 9b48dbda8db5afeaf19ff2d938f433281cab7def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:01 +0000
Subject: [PATCH 019/103] fix: single precision profiles of two depths were
 delivered unconverted when retrieved as double

---
 heclib/heclib_c/src/Internal/ztsDisaggregate.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/ztsDisaggregate.c b/heclib/heclib_c/src/Internal/ztsDisaggregate.c
index 4365777..d397d57 100644
--- a/heclib/heclib_c/src/Internal/ztsDisaggregate.c
+++ b/heclib/heclib_c/src/Internal/ztsDisaggregate.c
@@ -450,7 +450,7 @@ int ztsDisaggregate(long long *ifltab, int numberToRead, int numberStored,
 						//  No, just copy it	
 						//  Now get the int *4 length to copy
 						assert(valuesPosition < valuesArraySize);
-						if (valuesSizeRequested == valuesSizeRead) {
+						if ((valuesSizeRequested == valuesSizeRead) && (profileDepthsNumber <= 1)) {
 							//  Straight copy
 							startElement = startArray * valuesSizeRead;
 							endElement = endArray * valuesSizeRead;
@@ -1046,7 +1046,7 @@ int ztsDisaggregateDep(long long *ifltab, int numberToRead, int numberStored,
 					if (valuesCompressionFlag == 0) {
 						//  No, just copy it
 						//  Now get the int *4 length to copy
-						if (valuesSizeRequested == valuesSizeRead) {
+						if ((valuesSizeRequested == valuesSizeRead) && (profileDepthsNumber <= 1)) {
 							//  Straight copy
 							startElement = startArray * valuesSizeRead;
 							endElement = endArray * valuesSizeRead;
-- 
2.43.0


From 14b917eb62f7ba93f794de5ba4e4a5c8ba699161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:16 +0000
Subject: [PATCH 020/103] fix: depth of one-depth profiles, and user header of
 one-depth regular profiles, were not delivered

---
 .../heclib_c/src/Internal/ztsIrregReadBlock.c |  4 +++
 .../heclib_c/src/Internal/ztsRegReadBlock.c   | 30 ++++---------------
 2 files changed, 10 insertions(+), 24 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/ztsIrregReadBlock.c b/heclib/heclib_c/src/Internal/ztsIrregReadBlock.c
index 917e75a..0fe0707 100644
--- a/heclib/heclib_c/src/Internal/ztsIrregReadBlock.c
+++ b/heclib/heclib_c/src/Internal/ztsIrregReadBlock.c
@@ -334,6 +334,10 @@ int ztsIrregReadBlock(long long *ifltab, const char *pathname, long long *info,
 		*internalHeaderNumber = ztransfer->internalHeaderNumber;
 		*inoteElementSizeRead = internalHeader[INT_HEAD_inotesElementSize];
 		*profileDepthsNumberRequested = ztransfer->values2Number;
+		if ((profileDepthsArraySize == 1) && (ztransfer->values2Number > 0)) {
+			//  A mode of one has zread allocate the array
+			profileDepths[0] = ztransfer->values2[0];
+		}
 		*userHeaderNumber = ztransfer->userHeaderNumber;
 		if (*userHeaderNumber > 0) {
 			if (userHeaderArraySize == 1) {
diff --git a/heclib/heclib_c/src/Internal/ztsRegReadBlock.c b/heclib/heclib_c/src/Internal/ztsRegReadBlock.c
index cc3824c..03ab3f8 100644
--- a/heclib/heclib_c/src/Internal/ztsRegReadBlock.c
+++ b/heclib/heclib_c/src/Internal/ztsRegReadBlock.c
@@ -255,35 +255,17 @@ int ztsRegReadBlock(long long *ifltab, const char *pathname, int boolExists,
 		*qualityElementSize = internalHeader[INT_HEAD_qualityElementSize];
 		*inoteElementSize = internalHeader[INT_HEAD_inotesElementSize];
 		if ((ztransfer->values2Number > 0) && (profileDepthsArraySize > 0)) {
-			if (profileDepthsArraySize == 1) {
-				//  space allocated in zread
-				*profileDepthsNumberRead = ztransfer->values2Number;
-				profileDepths = ztransfer->values2;
-				ztransfer->allocated[zSTRUCT_TRANS_values2] = 0;
-				ztransfer->values2 = 0;
-			}
-			else {
-				if (profileDepthsArraySize > ztransfer->values2Number) profileDepthsArraySize = ztransfer->values2Number;
-				*profileDepthsNumberRead = profileDepthsArraySize;
-				convertIntArray(ztransfer->values2, profileDepths, profileDepthsArraySize, 1, 1);
-			}
+			if (profileDepthsArraySize > ztransfer->values2Number) profileDepthsArraySize = ztransfer->values2Number;
+			*profileDepthsNumberRead = profileDepthsArraySize;
+			convertIntArray(ztransfer->values2, profileDepths, profileDepthsArraySize, 1, 1);
 		}
 		else {
 			*profileDepthsNumberRead = 0;
 		}		
 		if ((ztransfer->userHeaderNumber > 0) && (userHeaderArraySize > 0) && ztransfer->userHeader && userHeader) {
-			if (profileDepthsArraySize == 1) {
-				//  space allocated in zread
-				*userHeaderNumber = ztransfer->userHeaderNumber;
-				userHeader = ztransfer->userHeader;
-				ztransfer->allocated[zSTRUCT_userHeader] = 0;
-				ztransfer->userHeader = 0;
-			}
-			else {
-				if (userHeaderArraySize > ztransfer->userHeaderNumber) userHeaderArraySize = ztransfer->userHeaderNumber;
-				*userHeaderNumber = userHeaderArraySize;
-				convertIntArray(ztransfer->userHeader, userHeader, userHeaderArraySize, 1, 1);
-			}
+			if (userHeaderArraySize > ztransfer->userHeaderNumber) userHeaderArraySize = ztransfer->userHeaderNumber;
+			*userHeaderNumber = userHeaderArraySize;
+			convertIntArray(ztransfer->userHeader, userHeader, userHeaderArraySize, 1, 1);
 		}
 		else {
 			*userHeaderNumber = 0;
-- 
2.43.0


From 6fe584990390da055ecafe0127bc91cb1abbd2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:16 +0000
Subject: [PATCH 021/103] fix: trimming a profile window without values read
 and wrote out of bounds

---
 heclib/heclib_c/src/Internal/ztsTrim.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Internal/ztsTrim.c b/heclib/heclib_c/src/Internal/ztsTrim.c
index 762c954..9dc0308 100644
--- a/heclib/heclib_c/src/Internal/ztsTrim.c
+++ b/heclib/heclib_c/src/Internal/ztsTrim.c
@@ -239,7 +239,7 @@ int ztsTrim(long long *ifltab, zStructTimeSeries *tss)
 			return STATUS_NOT_OKAY;
 		}
 
-		if ((firstValid > 0) || (lastValid != (numberValues -1))) {
+		if ((firstValid > 0) || (lastValid < (numberValues -1))) {
 			//  Need to trim data sets
 			numberValues = lastValid - firstValid + 1;
 			numberToMalloc = numberValues * tss->profileDepthsNumber;
-- 
2.43.0


From 8751a679901075e5db8f72492cfd2a0e1312da8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:50 +0000
Subject: [PATCH 022/103] fix: partial stores of paired data lost or overran
 curve labels; row retrievals delivered no labels

---
 heclib/heclib_c/src/Public/zpdRetrieve.c |  3 +-
 heclib/heclib_c/src/Public/zpdStore.c    | 64 +++++++++++-------------
 2 files changed, 30 insertions(+), 37 deletions(-)

diff --git a/heclib/heclib_c/src/Public/zpdRetrieve.c b/heclib/heclib_c/src/Public/zpdRetrieve.c
index 4e28509..143b299 100644
--- a/heclib/heclib_c/src/Public/zpdRetrieve.c
+++ b/heclib/heclib_c/src/Public/zpdRetrieve.c
@@ -375,7 +375,8 @@ int zpdRetrieve(long long *ifltab, zStructPairedData *pds, int retrieveSizeFlag)
 			startCurve = pds->startingCurve - 1;
 			endCurve = pds->endingCurve;
 			if (startCurve < 0) startCurve = 0;
-			if (endCurve < 0) endCurve = 0;
+			//  Zero means all curves
+			if ((endCurve <= 0) || (endCurve > pds->numberCurves)) endCurve = pds->numberCurves;
 		}
 		count = 0;
 		ipos = 0;
diff --git a/heclib/heclib_c/src/Public/zpdStore.c b/heclib/heclib_c/src/Public/zpdStore.c
index 4eddf2a..e21048d 100644
--- a/heclib/heclib_c/src/Public/zpdStore.c
+++ b/heclib/heclib_c/src/Public/zpdStore.c
@@ -234,8 +234,8 @@ int zpdStore(long long *ifltab, zStructPairedData *pds, int storageFlag)
 	int iposPds;
 	int curveNumber;
 	int originalSize;
+	int originalLength;
 	int newSize;
-	int len1;
 	int len2;
 
 	int internalHeader[INT_HEAD_SIZE];
@@ -1064,52 +1064,44 @@ int zpdStore(long long *ifltab, zStructPairedData *pds, int storageFlag)
 		//  If labels are being stored, add them in
 		//  len = pds->labelsLength  internalHeader[INT_HEAD_pdLabelsLength] = pds->labelsLength;
 		if (pds->labelsLength > 0) {
-			len = pds->labelsLength + ztransfer->internalHeader[INT_HEAD_pdLabelsLength];
+			originalLength = ztransfer->internalHeader[INT_HEAD_pdLabelsLength];
+			if (originalLength > ztransfer->header2Number * 4) originalLength = ztransfer->header2Number * 4;
+			numberCurves = ztransfer->internalHeader[INT_HEAD_pdNumberCurves];
+			len = pds->labelsLength + originalLength + numberCurves + 1;
 			clabels = (char *)calloc((size_t)len, 1);
-			clabelsRead = (char*)calloc(ztransfer->internalHeader[INT_HEAD_pdLabelsLength], 1);
-			charInt(ztransfer->header2, clabelsRead, ztransfer->internalHeader[INT_HEAD_pdLabelsLength], ztransfer->internalHeader[INT_HEAD_pdLabelsLength], 0, 0, 0);
+			clabelsRead = (char *)calloc((size_t)originalLength + 1, 1);
+			if (originalLength > 0) {
+				charInt(ztransfer->header2, clabelsRead, originalLength, originalLength, 0, 0, 0);
+			}
 			ipos = 0;
 			iposRead = 0;
 			iposPds = 0;
-			curveNumber = 1;
-			for (i=0; i<len; i++) {
+			for (curveNumber=0; curveNumber<numberCurves; curveNumber++) {
+				//  The label on disk for this curve, if any
+				len2 = 0;
+				if (iposRead < originalLength) {
+					len2 = (int)strlen(&clabelsRead[iposRead]);
+				}
 				//  Are we at a curve to add our label?
-				if ((curveNumber >= pds->startingCurve) && (curveNumber <= pds->endingCurve)) {
-					len1 = (int)strlen(&pds->labels[iposPds]);
-					for (j=0; j<len1; j++) {
-						clabels[ipos++] = pds->labels[iposPds++];
+				if ((curveNumber >= startCurve) && (curveNumber < endCurve)) {
+					for (; (iposPds < pds->labelsLength) && (pds->labels[iposPds] != '\0'); iposPds++) {
+						clabels[ipos++] = pds->labels[iposPds];
 					}
-					clabels[ipos++] = '\0';
-					len2 = (int)strlen(&clabelsRead[iposRead]);
-					iposRead += len2 + 1;
-					curveNumber++;
+					iposPds++;
 				}
 				else {
-					clabels[ipos] = clabelsRead[iposRead++];
-					if (clabels[ipos] == '\0') curveNumber++;
-					ipos++;
-				}
-				if (curveNumber > ztransfer->internalHeader[INT_HEAD_pdNumberCurves]) {
-					break;
-				}
-				if (ipos >= len) {
-					break;
-				}
-				if (iposRead >= (ztransfer->header2Number * 4)) {
-					break;
+					for (j=0; j<len2; j++) {
+						clabels[ipos++] = clabelsRead[iposRead + j];
+					}
 				}
+				clabels[ipos++] = '\0';
+				iposRead += len2 + 1;
 			}
-			if (clabelsRead) free(clabelsRead);
+			free(clabelsRead);
 			clabelsRead = 0;
 			originalSize = (int)ztransfer->info[zdssInfoKeys.kinfoHeader2Number];
-			if (ipos > ztransfer->internalHeader[INT_HEAD_pdLabelsLength]) {
+			if (ipos > originalLength) {
 				newSize = numberIntsInBytes(ipos);
-				ztransfer->internalHeader[INT_HEAD_pdLabelsLength] = ipos;
-			}
-			else {
-				newSize = originalSize;
-			}
-			if (newSize > originalSize) {
 				//  This is a pretty significant issue; paired data records are not designed
 				//  to be efficient at expansion
 				//  This may be a large data set and re-writing a expanded set may take a lot of resources
@@ -1157,7 +1149,7 @@ int zpdStore(long long *ifltab, zStructPairedData *pds, int storageFlag)
 				//  Now we have the full record.  Replace the label array
 				free(ztransfer->header2);
 				ztransfer->header2 = (int *)calloc(newSize + 2, 4);
-				charInt(clabels, ztransfer->header2, ztransfer->internalHeader[INT_HEAD_pdLabelsLength], (newSize * 4), 1, 1, 0);
+				charInt(clabels, ztransfer->header2, ipos, (newSize * 4), 1, 1, 0);
 				ztransfer->header2Number = newSize;
 				ztransfer->internalHeader[INT_HEAD_pdLabelsLength] = newSize * 4;
 				//  RE-write the whole thing
@@ -1165,7 +1157,7 @@ int zpdStore(long long *ifltab, zStructPairedData *pds, int storageFlag)
 			}
 			else {
 				address = ztransfer->info[zdssInfoKeys.kinfoHeader2Address];
-				charInt(clabels, ztransfer->header2, ztransfer->internalHeader[INT_HEAD_pdLabelsLength], (originalSize * 4), 1, 1, 0);
+				charInt(clabels, ztransfer->header2, originalLength, (originalSize * 4), 1, 1, 0);
 				status = zputBuff(ifltab, address, ztransfer->header2, originalSize, 1, BUFF_WRITE, bufferControl, buffer);
 			}
 			if (clabels) {
-- 
2.43.0


From 522781acd31a5adaed8991d1b2ac7ba7f311f32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:37 +0000
Subject: [PATCH 023/103] fix: location time zone and supplemental text came
 back unterminated when a multiple of four characters long

---
 heclib/heclib_c/src/Public/zlocationRetrieve.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/heclib/heclib_c/src/Public/zlocationRetrieve.c b/heclib/heclib_c/src/Public/zlocationRetrieve.c
index 4f95b51..a4ee2c0 100644
--- a/heclib/heclib_c/src/Public/zlocationRetrieve.c
+++ b/heclib/heclib_c/src/Public/zlocationRetrieve.c
@@ -201,7 +201,7 @@ int zlocationRetrieve(long long *ifltab, zStructLocation *locationStruct)
 		nwords = ztransfer->values1Number - count;
 		len = nwords * 4;
 		if (len > 0) {
-			locationStruct->timeZoneName = (char *)malloc(len + 8);
+			locationStruct->timeZoneName = (char *)calloc(len + 8, 1);
 			locationStruct->allocated[zSTRUCT_timeZoneName] = 1;
 			charInt ((void *)&ztransfer->values1[count], locationStruct->timeZoneName, len, len, 0, 1, 0);
 		}
@@ -210,7 +210,7 @@ int zlocationRetrieve(long long *ifltab, zStructLocation *locationStruct)
 	//  Supplemental information
 	if (ztransfer->values2Number > 0) {
 		len = ztransfer->values2Number * 4;
-		locationStruct->supplemental = (char *)malloc(len + 8);
+		locationStruct->supplemental = (char *)calloc(len + 8, 1);
 		locationStruct->allocated[zSTRUCT_otherInformation] = 1;
 		charInt ((void *)ztransfer->values2, locationStruct->supplemental, len, len, 0, 1, 0);
 	}
-- 
2.43.0


From 46477fb38be49441f69d977dd536abff385a94aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:37 +0000
Subject: [PATCH 024/103] fix: storing a TIN without point labels dereferenced
 a null pointer or overran the label buffer

---
 heclib/heclib_c/src/Public/zspatialTinStore.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Public/zspatialTinStore.c b/heclib/heclib_c/src/Public/zspatialTinStore.c
index ffe88dd..9a6fb4a 100644
--- a/heclib/heclib_c/src/Public/zspatialTinStore.c
+++ b/heclib/heclib_c/src/Public/zspatialTinStore.c
@@ -194,7 +194,9 @@ int zspatialTinStore(long long *ifltab, zStructSpatialTin *tinStruct)
 	ztransfer->userHeader = (int *)calloc(ztransfer->userHeaderNumber + 2, 4);
 	ztransfer->header2Mode = 1;
 	//  Need to be sure to copy char into in array, not cast and assign to header
-	 charInt (tinStruct->pointLabel, ztransfer->userHeader, tinStruct->pointLabelLen, (ztransfer->userHeaderNumber * 4), 1, 1, 0);
+	 if (tinStruct->pointLabel && (tinStruct->pointLabelLen > 0)) {
+		charInt (tinStruct->pointLabel, ztransfer->userHeader, tinStruct->pointLabelLen, (ztransfer->userHeaderNumber * 4), 1, 1, 0);
+	 }
 
 	 //  Values 1, x, y, value
 	 ztransfer->values1Number = 3 * tinStruct->numberPoints;
-- 
2.43.0


From f3bd44aab96599095c08fc78b3a4b6bc0ee53c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:37 +0000
Subject: [PATCH 025/103] fix: ztextRetrieveToFile emptied the file and
 reported success for a missing record; crash when the file cannot be opened

---
 heclib/heclib_c/src/Public/ztextRetrieveToFile.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Public/ztextRetrieveToFile.c b/heclib/heclib_c/src/Public/ztextRetrieveToFile.c
index a8fc12b..bbf73eb 100644
--- a/heclib/heclib_c/src/Public/ztextRetrieveToFile.c
+++ b/heclib/heclib_c/src/Public/ztextRetrieveToFile.c
@@ -76,6 +76,11 @@ int ztextRetrieveToFile(long long *ifltab, const char *pathname, const char *fil
 		zstructFree(textStruct);
 		return status;
 	}
+	if (status != STATUS_RECORD_FOUND) {
+		//  No such record; leave any existing file alone
+		zstructFree(textStruct);
+		return status;
+	}
 
 #ifdef _MSC_VER
 	status = fopen_s(&textFileFP, filename, "w");
@@ -89,7 +94,7 @@ int ztextRetrieveToFile(long long *ifltab, const char *pathname, const char *fil
 	}
 #endif
 	if (status != 0) {
-		fclose(textFileFP);
+		zstructFree(textStruct);
 		return zerrorProcessing(ifltab, DSS_FUNCTION_ztextRetrieve_ID,
 					zdssErrorCodes.UNABLE_TO_WRITE_FILE, status, 0,
 					zdssErrorSeverity.WARNING, pathname, filename);
-- 
2.43.0


From dd1cef5ff9653f78c376540b031f51c778256caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:52 +0000
Subject: [PATCH 026/103] fix: zbinaryRetrieveToFile opened its output
 read-only and never wrote it

---
 .../src/Public/zbinaryRetrieveToFile.c        | 26 +++++++++++--------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/heclib/heclib_c/src/Public/zbinaryRetrieveToFile.c b/heclib/heclib_c/src/Public/zbinaryRetrieveToFile.c
index a90bc8c..a4c65fc 100644
--- a/heclib/heclib_c/src/Public/zbinaryRetrieveToFile.c
+++ b/heclib/heclib_c/src/Public/zbinaryRetrieveToFile.c
@@ -1,6 +1,4 @@
 #include <stdio.h>
-#include <fcntl.h>
-#include <sys/stat.h>
 
 #include "heclib7.h"
 
@@ -49,8 +47,8 @@ int zbinaryRetrieveToFile(long long *ifltab, const char *pathname, const char *f
 {
 	int status;
 	zStructTransfer* ztransfer;
-	int ihandle;
-	int access;
+	FILE *fileFP;
+	size_t numberWritten;
 	char messageString[80];
 
 
@@ -94,25 +92,31 @@ int zbinaryRetrieveToFile(long long *ifltab, const char *pathname, const char *f
 		return status;
 	}
 
-	access = 0;
-	status = zopenDisk(filename, &ihandle, access, 0);
-	if (status != STATUS_OKAY) {
+#ifdef _MSC_VER
+	if (fopen_s(&fileFP, filename, "wb") != 0) {
+		fileFP = 0;
+	}
+#else
+	fileFP = fopen(filename, "wb");
+#endif
+	if (!fileFP) {
+		zstructFree(ztransfer);
 		return zerrorProcessing(ifltab, DSS_FUNCTION_zbinaryRetrieve_ID,
 								zdssErrorCodes.UNABLE_TO_WRITE_FILE, 0, 0,
 								zdssErrorSeverity.WARNING_NO_FILE_ACCESS,
 								filename, "Opening file to save to");
 	}
-	status = writeBytes(ihandle, (const char *)ztransfer->values1, ztransfer->logicalNumberValues);
-	if (status < 0) {
+	numberWritten = fwrite((const char *)ztransfer->values1, sizeof(char), (size_t)ztransfer->logicalNumberValues, fileFP);
+	if ((fclose(fileFP) != 0) || (numberWritten != (size_t)ztransfer->logicalNumberValues)) {
 		perror("Write status");
+		zstructFree(ztransfer);
 		return zerrorProcessing(ifltab, DSS_FUNCTION_zbinaryRetrieve_ID,
 								zdssErrorCodes.UNABLE_TO_WRITE_FILE, 0, 0,
 								zdssErrorSeverity.WARNING_NO_FILE_ACCESS,
 								filename, "Writing to file");
 	}
 
-	closeFile(ihandle);
-
+	status = STATUS_OKAY;
 	zstructFree(ztransfer);
 
 	if (zmessageLevel(ifltab, MESS_METHOD_WRITE_ID, MESS_LEVEL_USER_DIAG)) {
-- 
2.43.0


From 4d200c6804f4b19a61d785d67574fb589a2aef58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:03 +0000
Subject: [PATCH 027/103] fix: a grid or TIN description ending in a blank
 shifted every description after it

---
 heclib/heclib_c/src/Public/zspatialGridRetrieve.c | 10 +++++-----
 heclib/heclib_c/src/Public/zspatialTinRetrieve.c  | 12 ++++++------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/heclib/heclib_c/src/Public/zspatialGridRetrieve.c b/heclib/heclib_c/src/Public/zspatialGridRetrieve.c
index 74f87e9..2c81e6a 100644
--- a/heclib/heclib_c/src/Public/zspatialGridRetrieve.c
+++ b/heclib/heclib_c/src/Public/zspatialGridRetrieve.c
@@ -266,23 +266,23 @@ int zspatialGridRetrieve(long long *ifltab, zStructSpatialGrid *gridStruct, int
 
 		count = 0;
 		gridStruct->_dataUnits = mallocAndCopy(&str[count]);
-		len = strlen(gridStruct->_dataUnits);
+		len = strlen(&str[count]);
 		count += len;
 		count++; //  null terminator
 		gridStruct->_dataSource = mallocAndCopy(&str[count]);
-		len = strlen(gridStruct->_dataSource);
+		len = strlen(&str[count]);
 		count += len;
 		count++;
 		gridStruct->_srsName = mallocAndCopy(&str[count]);
-		len = strlen(gridStruct->_srsName);
+		len = strlen(&str[count]);
 		count += len;
 		count++;
 		gridStruct->_srsDefinition = mallocAndCopy(&str[count]);
-		len = strlen(gridStruct->_srsDefinition);
+		len = strlen(&str[count]);
 		count += len;
 		count++;
 		gridStruct->_timeZoneID = mallocAndCopy(&str[count]);
-		len = strlen(gridStruct->_timeZoneID);
+		len = strlen(&str[count]);
 		count += len;
 		count++;
 
diff --git a/heclib/heclib_c/src/Public/zspatialTinRetrieve.c b/heclib/heclib_c/src/Public/zspatialTinRetrieve.c
index 59d774d..335a1bc 100644
--- a/heclib/heclib_c/src/Public/zspatialTinRetrieve.c
+++ b/heclib/heclib_c/src/Public/zspatialTinRetrieve.c
@@ -150,27 +150,27 @@ int zspatialTinRetrieve(long long *ifltab, zStructSpatialTin *tinStruct, int boo
 
 	count = 0;
 	tinStruct->SpatialReferenceSystem = mallocAndCopy(&str[count]);
-	len = strlen(tinStruct->SpatialReferenceSystem);
+	len = strlen(&str[count]);
 	count += len;
 	count++;	//  null terminator
 	tinStruct->SRSName = mallocAndCopy(&str[count]);
-	len = strlen(tinStruct->SRSName);
+	len = strlen(&str[count]);
 	count += len;
 	count++;
 	tinStruct->SRSUnits = mallocAndCopy(&str[count]);
-	len = strlen(tinStruct->SRSUnits);
+	len = strlen(&str[count]);
 	count += len;
 	count++;
 	tinStruct->units = mallocAndCopy(&str[count]);
-	len = strlen(tinStruct->units);
+	len = strlen(&str[count]);
 	count += len;
 	count++;
 	tinStruct->type = mallocAndCopy(&str[count]);
-	len = strlen(tinStruct->type);
+	len = strlen(&str[count]);
 	count += len;
 	count++;
 	tinStruct->timeZoneName = mallocAndCopy(&str[count]);
-	len = strlen(tinStruct->timeZoneName);
+	len = strlen(&str[count]);
 	count += len;
 	count++;
 
-- 
2.43.0


From eaa36c6a05ddf7888aefd8f723fd1deb4a8b260a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:52 +0000
Subject: [PATCH 028/103] fix: zfileSize returned zero whenever it succeeded,
 so no file could be embedded

---
 heclib/heclib_c/src/System/zfileSize.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/heclib/heclib_c/src/System/zfileSize.c b/heclib/heclib_c/src/System/zfileSize.c
index 58db17a..4333d98 100644
--- a/heclib/heclib_c/src/System/zfileSize.c
+++ b/heclib/heclib_c/src/System/zfileSize.c
@@ -15,19 +15,19 @@ long long zfileSize(int handle)
 #ifdef _MSC_VER
 	struct _stat64 buf;
 	status = _fstat64(handle, &buf);
-	if (!status) return status;
+	if (status) return status;
 	nbytes = buf.st_size; 
 	return nbytes;
 #elif __linux__  || __APPLE__
     struct stat buf;
 	status = fstat(handle, &buf);
-	if (!status) return status;
+	if (status) return status;
 	nbytes = buf.st_size; 
 	return nbytes;
 #else
 	struct stat64 buf;
 	status = fstat64(handle, &buf);
-	if (!status) return status;
+	if (status) return status;
 	nbytes = buf.st_size;
 	return nbytes;
 #endif
-- 
2.43.0


From 684a6d3b98b22bdf6f3fbac59cf78ec28be12050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:30 +0000
Subject: [PATCH 029/103] fix: an interrupted write could leave directory bins
 shared, cyclic or unreachable

---
 heclib/heclib_c/src/Internal/zbinNew.c | 81 +++++++++++++-------------
 1 file changed, 42 insertions(+), 39 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zbinNew.c b/heclib/heclib_c/src/Internal/zbinNew.c
index 3851e8e..b504e3b 100644
--- a/heclib/heclib_c/src/Internal/zbinNew.c
+++ b/heclib/heclib_c/src/Internal/zbinNew.c
@@ -47,8 +47,8 @@ int zbinNew(long long *ifltab)
 
 	long long *pathnameBin;
 	long long izero = 0;
-	long long address;
 	long long newBinAddress;
+	long long linkAddress;
 	long long *fileHeader;
 
 
@@ -67,7 +67,7 @@ int zbinNew(long long *ifltab)
 	// Record that we have created a new bin
 	fileHeader[zdssFileKeys.ktotalBins]++;
 
-	newBinAddress = 0;
+	linkAddress = 0;
 	isize = (int)fileHeader[zdssFileKeys.kbinSize];
 	//  Is there a pathname bin for this table hash?
 	//  (The table hash will have already been loaded by zcheck)
@@ -77,62 +77,65 @@ int zbinNew(long long *ifltab)
 		if (zisError(status)) {
 			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zbinNew_ID);
 		}
-		//  Are there any more unused (empty) pathname bins in this block?
-		//  (A "block" will contain many (e.g., 32) pathname bins together)
-		if (fileHeader[zdssFileKeys.kbinsRemainInBlock] <= 0) {
-			//  No more space in this block, create a new block at the end of the file
-			//  Compute space needed -
-			//  One extra word at the end of the bin block to point to the next block
-			blockSize = (int)(fileHeader[zdssFileKeys.kbinSize] * fileHeader[zdssFileKeys.kbinsPerBlock]) + 1;
-			newBinAddress = zgetFileSpace(ifltab, blockSize, 0, &atEOF);
-			pathnameBin[isize-1] = newBinAddress;
-		}
-		else {
-			//  Yes, there is a unused bin in this block
-			pathnameBin[isize-1] = fileHeader[zdssFileKeys.kaddNextEmptyBin];
-		}
-		//  Save the address of this new bin in the current (full) bin (for this hash)
-		address = ifltab[zdssKeys.kbinAddCurrent] + isize - 1;
-		status = zput(ifltab, address, (int *)&pathnameBin[isize-1], 1, 2);
-		if (zisError(status)) {
-			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zbinNew_ID);
-		}
+		//  The address of the new bin goes at the end of the current (full) bin (for this hash)
+		linkAddress = ifltab[zdssKeys.kbinAddCurrent] + isize - 1;
 	}
+	//  Nothing may point to a bin before the file header on disk accounts for it.  Otherwise,
+	//  if we are interrupted, the same bin (or file space) would be handed out a second time.
+	//  Are there any more unused (empty) pathname bins in this block?
+	//  (A "block" will contain many (e.g., 32) pathname bins together)
 	//  No empty bins remain in this block; create new block at EOF
 	if (fileHeader[zdssFileKeys.kbinsRemainInBlock] <= 0) {
-		//  Write a new pathname block at the end of the file
-		//  First, set the address of this in the last block
-		if (newBinAddress == 0) {
-			blockSize = (int)(fileHeader[zdssFileKeys.kbinSize] * fileHeader[zdssFileKeys.kbinsPerBlock]) + 1;
-			newBinAddress = zgetFileSpace(ifltab, blockSize, 0, &atEOF);
-		}
-		status = zput(ifltab, fileHeader[zdssFileKeys.kaddNextEmptyBin], (int *)&newBinAddress, 1, 2);
-		if (zisError(status)) {
-			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zbinNew_ID);
-		}
-		//  Set location of current block at end of file
-		fileHeader[zdssFileKeys.kbinsRemainInBlock] = fileHeader[zdssFileKeys.kbinsPerBlock] - 1;
-		ifltab[zdssKeys.kbinAddCurrent] = newBinAddress;
+		//  Compute space needed -
+		//  One extra word at the end of the bin block to point to the next block
+		blockSize = (int)(fileHeader[zdssFileKeys.kbinSize] * fileHeader[zdssFileKeys.kbinsPerBlock]) + 1;
+		newBinAddress = zgetFileSpace(ifltab, blockSize, 0, &atEOF);
 		if (zmessageLevel(ifltab, MESS_METHOD_WRITE_ID, MESS_LEVEL_INTERNAL_DIAG_1)) {
 			zmessageDebug(ifltab, DSS_FUNCTION_zbinNew_ID, "Writing new block of pathname bins at end of file", "");
 		}
-		status = zput(ifltab, ifltab[zdssKeys.kbinAddCurrent], (int *)&izero, -blockSize, 2);
+		status = zput(ifltab, newBinAddress, (int *)&izero, -blockSize, 2);
 		if (zisError(status)) {
 			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zbinNew_ID);
 		}
-		fileHeader[zdssFileKeys.kaddNextEmptyBin] = ifltab[zdssKeys.kbinAddCurrent] + fileHeader[zdssFileKeys.kbinSize];
 		//  Write the EOF flag
 		if (atEOF) {
-			status = zwriteEOF(ifltab);;
+			status = zwriteEOF(ifltab);
+			if (zisError(status)) {
+				return zerrorUpdate(ifltab, status, DSS_FUNCTION_zbinNew_ID);
+			}
 		}
+		//  Reserve the space, then set the address of this block in the last block
+		status = zpermWrite(ifltab);
+		if (zisError(status)) {
+			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zbinNew_ID);
+		}
+		status = zput(ifltab, fileHeader[zdssFileKeys.kaddNextEmptyBin], (int *)&newBinAddress, 1, 2);
+		if (zisError(status)) {
+			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zbinNew_ID);
+		}
+		//  Set location of current block at end of file
+		fileHeader[zdssFileKeys.kbinsRemainInBlock] = fileHeader[zdssFileKeys.kbinsPerBlock] - 1;
+		fileHeader[zdssFileKeys.kaddNextEmptyBin] = newBinAddress + fileHeader[zdssFileKeys.kbinSize];
 	}
 	else {
 		//  There are still some empty bins in this block; use one
 		fileHeader[zdssFileKeys.kbinsRemainInBlock]--;
-		ifltab[zdssKeys.kbinAddCurrent] = fileHeader[zdssFileKeys.kaddNextEmptyBin];
+		newBinAddress = fileHeader[zdssFileKeys.kaddNextEmptyBin];
 		//  When we've reached the end of the bin block, this will be used to point to next bin block
 		fileHeader[zdssFileKeys.kaddNextEmptyBin] += fileHeader[zdssFileKeys.kbinSize];
 	}
+	//  The header now accounts for the new bin; link it to the current (full) bin
+	status = zpermWrite(ifltab);
+	if (zisError(status)) {
+		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zbinNew_ID);
+	}
+	if (linkAddress > 0) {
+		status = zput(ifltab, linkAddress, (int *)&newBinAddress, 1, 2);
+		if (zisError(status)) {
+			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zbinNew_ID);
+		}
+	}
+	ifltab[zdssKeys.kbinAddCurrent] = newBinAddress;
 	//  Be sure the new bin is clear
 	for (i=0; i<(int)fileHeader[zdssFileKeys.kbinSize]; i++) {
 		pathnameBin[i] = 0;
-- 
2.43.0


From 25f1e23667020657c5542620831ed203036f868d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:50 +0000
Subject: [PATCH 030/103] fix: an interrupted write or rename left directory
 entries pointing at incomplete or unreserved space

---
 heclib/heclib_c/src/Internal/zwriteExisting.c | 25 ++-----
 heclib/heclib_c/src/Internal/zwriteInternal.c | 38 +++++++++-
 heclib/heclib_c/src/Internal/zwriteNew.c      |  8 +-
 heclib/heclib_c/src/Public/zcopyFile.c        | 17 +++++
 heclib/heclib_c/src/Public/zrename.c          | 73 +++++++++----------
 heclib/heclib_c/src/headers/hecdssInternal.h  |  3 +-
 6 files changed, 102 insertions(+), 62 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zwriteExisting.c b/heclib/heclib_c/src/Internal/zwriteExisting.c
index 4e0e3e6..3c87d7a 100644
--- a/heclib/heclib_c/src/Internal/zwriteExisting.c
+++ b/heclib/heclib_c/src/Internal/zwriteExisting.c
@@ -137,7 +137,8 @@
 **/
 
 int zwriteExisting(long long *ifltab, zStructTransfer* ztransfer,
-			  long long bufferControl[4], int *buffer, int bufferAction, int *wroteAtEOF)
+			  long long bufferControl[4], int *buffer, int bufferAction, int *wroteAtEOF,
+			  long long *replacedAddress, int *replacedSize)
 
 {
 	int status;
@@ -278,12 +279,10 @@ int zwriteExisting(long long *ifltab, zStructTransfer* ztransfer,
 			zmessageDebug(ifltab, DSS_FUNCTION_zwriteExisting_ID,  "Number of expansions to now: ", messageString);
 /**/		}
 
-		//  Save the iformation block with a moved status
-		info[zdssInfoKeys.kinfoStatus] = REC_STATUS_MOVED;
-		status = zput(ifltab, ifltab[zdssKeys.kaddInfoLastPath], (int *)info, numberInfo, 2);
-		if (zisError(status)) {
-			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zwriteExisting_ID);
-		}
+		//  The old information block is flagged as moved, its space released and the new location
+		//  saved in the pathname bin by zwriteInternal, once the record is completely written
+		*replacedAddress = ifltab[zdssKeys.kaddInfoLastPath];
+		*replacedSize = 0;
 
 		//  Check that the old info and data areas are contiguous.  If so, we can reclaim their space
 		//  A rename op may have moved the info block
@@ -291,7 +290,7 @@ int zwriteExisting(long long *ifltab, zStructTransfer* ztransfer,
 		longSize = numberLongsInInts(originalSize) + numberInfo;
 		if ((ifltab[zdssKeys.kaddInfoLastPath] + (long long)longSize) ==
 			(info[zdssInfoKeys.kinfoValues1Address] + (long long)numberLongsInInts((int)info[zdssInfoKeys.kinfoAllocatedSize]))) {
-			zreleaseFileSpace(ifltab, ifltab[zdssKeys.kaddInfoLastPath], longSize);
+			*replacedSize = longSize;
 		}
 		else {
 			//  this would have been done in release space
@@ -369,25 +368,17 @@ int zwriteExisting(long long *ifltab, zStructTransfer* ztransfer,
 		//  and the size of the info is small in comparison.
 		//  Renaming can be an exception to this
 
-		//  Rewrite the pathname bin block with a pointer to the
-		//  new info - at the end of the file
+		//  Get the space for the new info and data
 		total = numberInfo +
 			numberLongsInInts(ztransfer->values3Number) +
 			numberLongsInInts(ztransfer->internalHeaderNumber) +
 			numberLongsInInts(ztransfer->header2Number) +
 			numberLongsInInts(ztransfer->userHeaderNumber) +
 			numberLongsInInts(ztransfer->totalAllocatedSize);
-		//  We can use reclaimed space - even if it includes this same record
 		address = zgetFileSpace(ifltab, total, 1, wroteAtEOF);
 		ifltab[zdssKeys.kaddInfoLastPath] = address;
 		fileHeader[zdssFileKeys.knumberExpansions] += 1;
 
-		//  Write the address of the new information area in the existing pathname bin
-		status = zput(ifltab, ifltab[zdssKeys.kinfoAddInBin], (int *)&ifltab[zdssKeys.kaddInfoLastPath], 1, 2);
-		if (zisError(status)) {
-			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zwriteExisting_ID);
-		}
-
 		info[zdssInfoKeys.kinfoFlag] = DSS_INFO_FLAG;
 		info[zdssInfoKeys.kinfoStatus] = REC_STATUS_PRIMARY;
 
diff --git a/heclib/heclib_c/src/Internal/zwriteInternal.c b/heclib/heclib_c/src/Internal/zwriteInternal.c
index 04f48e3..49b5e49 100644
--- a/heclib/heclib_c/src/Internal/zwriteInternal.c
+++ b/heclib/heclib_c/src/Internal/zwriteInternal.c
@@ -170,6 +170,10 @@ int zwriteInternal(long long *ifltab, zStructTransfer* ztransfer, int checked,
 	int totalNumberInts = 0;
 	int zero = 0;
 	int bufferAction = 0;
+	int boolNew = 0;
+	int replacedSize = 0;
+	long long replacedAddress = 0;
+	long long movedStatus;
 	int boolFillValues1 = 0;
 	int boolFillValues2 = 0;
 	int boolFillValues3 = 0;
@@ -335,7 +339,8 @@ int zwriteInternal(long long *ifltab, zStructTransfer* ztransfer, int checked,
 	}
 
 	// Allocate or update space and sizes
-	if (status == STATUS_RECORD_NOT_FOUND) {
+	boolNew = (status == STATUS_RECORD_NOT_FOUND);
+	if (boolNew) {
 		//  New record
 		//  Create record location and addresses to it.
 		status = zwriteNew(ifltab, ztransfer,
@@ -346,7 +351,8 @@ int zwriteInternal(long long *ifltab, zStructTransfer* ztransfer, int checked,
 		// existing record
 		//  Update sizes
 		status = zwriteExisting(ifltab, ztransfer,
-			bufferControl, buffer, bufferAction, &wroteAtEOF);
+			bufferControl, buffer, bufferAction, &wroteAtEOF,
+			&replacedAddress, &replacedSize);
 	}
 
 
@@ -466,6 +472,34 @@ int zwriteInternal(long long *ifltab, zStructTransfer* ztransfer, int checked,
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zwriteInternal_ID);
 	}
 
+	//  Only refer to a new record (or a new location of a record) from the directory now that it is
+	//  completely written and its space accounted for, so that an interruption cannot leave
+	//  the directory pointing at space that is incomplete or that will be used for another record
+	if (boolNew || (replacedAddress > 0)) {
+		status = zpermWrite(ifltab);
+		if (!zisError(status)) {
+			if (boolNew) {
+				//  Save the location of info in the pathname bin
+				status = zbinUpdate(ifltab, ztransfer->pathname, ifltab[zdssKeys.kinfoAddress], 1, ztransfer->dataType);
+			}
+			else {
+				//  Write the address of the new information area in the existing pathname bin
+				status = zput(ifltab, ifltab[zdssKeys.kinfoAddInBin], (int *)&ifltab[zdssKeys.kaddInfoLastPath], 1, 2);
+				if (!zisError(status)) {
+					//  and flag the old area as moved
+					movedStatus = REC_STATUS_MOVED;
+					status = zput(ifltab, replacedAddress + zdssInfoKeys.kinfoStatus, (int *)&movedStatus, 1, 2);
+				}
+				if (!zisError(status) && (replacedSize > 0)) {
+					zreleaseFileSpace(ifltab, replacedAddress, replacedSize);
+				}
+			}
+		}
+		if (zisError(status)) {
+			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zwriteInternal_ID);
+		}
+	}
+
 	//  Write perm area (if multi-user) and unlock
 	status = zlockActive(ifltab, LOCKING_LEVEL_LOW, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 
diff --git a/heclib/heclib_c/src/Internal/zwriteNew.c b/heclib/heclib_c/src/Internal/zwriteNew.c
index 26c83be..40efc35 100644
--- a/heclib/heclib_c/src/Internal/zwriteNew.c
+++ b/heclib/heclib_c/src/Internal/zwriteNew.c
@@ -239,11 +239,9 @@ int zwriteNew(long long *ifltab, zStructTransfer* ztransfer,
 	}
 	address = zgetFileSpace(ifltab, total, 1, wroteAtEOF);
 
-	//  Save the location of info in the pathname bin
-	status = zbinUpdate(ifltab, ztransfer->pathname, address, 1, ztransfer->dataType);
-	if (zisError(status)) {
-		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zwriteNew_ID);
-	}
+	//  The location of info is saved in the pathname bin by zwriteInternal,
+	//  once the record is completely written
+	ifltab[zdssKeys.kaddInfoLastPath] = address;
 	info = (long long *)ifltab[zdssKeys.kinfo];
 	ifltab[zdssKeys.kinfoSize] = numberInfo;
 	address += (long long)numberInfo;
diff --git a/heclib/heclib_c/src/Public/zcopyFile.c b/heclib/heclib_c/src/Public/zcopyFile.c
index c8cab0d..9c1721b 100644
--- a/heclib/heclib_c/src/Public/zcopyFile.c
+++ b/heclib/heclib_c/src/Public/zcopyFile.c
@@ -77,6 +77,7 @@ int zcopyFile(long long *ifltabFrom, long long *ifltabTo, int statusWanted)
 	long long fileBuff[FILE_BUFF_SIZE];
 	long long recHeader[3];
 	int tableHash;
+	long long infoBlock[MAX_PATHNAME_LENGTH];
 	long long pathnameHash;
 	char pathname[MAX_PATHNAME_LENGTH];
 	int pathLength;
@@ -198,6 +199,22 @@ int zcopyFile(long long *ifltabFrom, long long *ifltabTo, int statusWanted)
 							continue;
 						}
 
+						//  The directory tells which area is the record; an interrupted
+						//  write can leave one behind that the directory never referred to
+						if (info[zdssInfoKeys.kinfoStatus] == REC_STATUS_PRIMARY) {
+							memcpy(infoBlock, info, (size_t)numberInfo * LONG_SIZE);
+							ifltabFrom[zdssKeys.kaddInfoLastPath] = 0;
+							status = zcheckInternal(ifltabFrom, pathname, REC_STATUS_PRIMARY);
+							if (zisError(status)) {
+								return zerrorUpdate(ifltabFrom, status, DSS_FUNCTION_zcopyFile_ID);
+							}
+							if ((status != STATUS_RECORD_FOUND) || (ifltabFrom[zdssKeys.kaddInfoLastPath] != infoAddress)) {
+								continue;
+							}
+							memcpy(info, infoBlock, (size_t)numberInfo * LONG_SIZE);
+							ifltabFrom[zdssKeys.kinfoAddress] = infoAddress;
+						}
+
 						if (zgetVersion(ifltabTo) == 7) {
 							status = zcopyRecordInternal(ifltabFrom, ifltabTo, pathname, 0);
 						}
diff --git a/heclib/heclib_c/src/Public/zrename.c b/heclib/heclib_c/src/Public/zrename.c
index 36929cf..863a6bf 100644
--- a/heclib/heclib_c/src/Public/zrename.c
+++ b/heclib/heclib_c/src/Public/zrename.c
@@ -71,7 +71,6 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 	int wroteAtEOF;
 	int numberChars;
 	int pathnameSize;
-	int istat = 0;
 	int status;
 	int i;
 	int atEOF;
@@ -253,15 +252,9 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 	}
 
 
-	//  First, mark the pathname bin status as remamed
+	//  The pathname bin status is marked as renamed last, so that an
+	//  interruption does not leave the record without a name
 	address = ifltab[zdssKeys.kpathBinAddress] + zdssBinKeys.kbinStatus;
-	binStatus = REC_STATUS_RENAMED;
-	status = zput(ifltab, address, (int *)&binStatus, 1, 2);
-	if (zisError(status)) {
-		zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
-		free(newPath);
-		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zrename_ID);
-	}
 
 	//  Read in the old info block
 	info = (long long *)ifltab[zdssKeys.kinfo];
@@ -288,15 +281,7 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 	//  Now check to see if the pathname will fit in the old info block.
 	if (numberInfoNew > numberInfoOld) {
 		//  No - we have to write a new info block at EOF
-		//  Mark the old info block as renamed
-		info[zdssInfoKeys.kinfoStatus] = REC_STATUS_RENAMED;  //  Mark as renamed
-		status = zput(ifltab, ifltab[zdssKeys.kaddInfoLastPath], (int *)info, numberInfoOld, 2);
-		if (zisError(status)) {
-			if (infoOld) free(infoOld);
-			zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
-			free(newPath);
-			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zrename_ID);
-		}
+		//  (The old info block is marked as renamed at the end)
 		fileHeader[zdssFileKeys.kdead] += numberInfoOld;
 	}
 
@@ -367,33 +352,47 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 	info[numberInfoNew-1] = 0;
 	charLong((void *)newPath, (void *)&info[zdssInfoKeys.kinfoPathname], (int)ifltab[zdssKeys.klenLastPath], (int)ifltab[zdssKeys.klenLastPath], 1, 1);
 
-	//  Update the pathname bin area
-	i8toi4(info[zdssInfoKeys.kinfoTypeVersion], &dataType, &temp);
-	istat = zbinUpdate(ifltab, newPath, ifltab[zdssKeys.kaddInfoLastPath], 1, dataType);
-
-	//  Now write the information area to disk
+	//  Write in the order that keeps the record accessible by its old or new name if we
+	//  are interrupted:  a new information area and the header that accounts for its space,
+	//  the new pathname bin entry (and the information area, if that is not a new one),
+	//  then the old pathname bin entry and old information area
 	ifltab[zdssKeys.kinfoAddress] = ifltab[zdssKeys.kaddInfoLastPath];
 	ifltab[zdssKeys.kinfoSize] = numberInfoNew;
-	//////////////FIX ME HERE
-	status = zput(ifltab, ifltab[zdssKeys.kaddInfoLastPath], (int *)info, numberInfoNew, 2);
+	i8toi4(info[zdssInfoKeys.kinfoTypeVersion], &dataType, &temp);
+	status = STATUS_OKAY;
+	if (wroteAtEOF == 1) {
+		status = zput(ifltab, ifltab[zdssKeys.kaddInfoLastPath], (int *)info, numberInfoNew, 2);
+		if (!zisError(status)) {
+			//  Write the EOF flag
+			eofWord = DSS_END_FILE_FLAG;
+			status = zput(ifltab, fileHeader[zdssFileKeys.kfileSize], (int *)&eofWord, 1, 2);
+		}
+		if (!zisError(status)) {
+			status = zpermWrite(ifltab);
+		}
+	}
+	if (!zisError(status)) {
+		//  Update the pathname bin area
+		status = zbinUpdate(ifltab, newPath, ifltab[zdssKeys.kaddInfoLastPath], 1, dataType);
+	}
+	if (!zisError(status) && (wroteAtEOF == 0)) {
+		status = zput(ifltab, ifltab[zdssKeys.kaddInfoLastPath], (int *)info, numberInfoNew, 2);
+	}
+	//  Mark the old pathname bin status as renamed
+	binStatus = REC_STATUS_RENAMED;
+	if (!zisError(status)) {
+		status = zput(ifltab, address, (int *)&binStatus, 1, 2);
+	}
+	if (!zisError(status) && (wroteAtEOF == 1)) {
+		//  Mark the old info block as renamed
+		status = zput(ifltab, infoAddress + zdssInfoKeys.kinfoStatus, (int *)&binStatus, 1, 2);
+	}
 	if (zisError(status)) {
 		if (infoOld) free(infoOld);
 		zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
 		free(newPath);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zrename_ID);
 	}
-	if (wroteAtEOF == 1) {
-		//  Write the EOF flag
-		//////////////FIX ME HERE
-		eofWord = DSS_END_FILE_FLAG;
-		status = zput(ifltab, fileHeader[zdssFileKeys.kfileSize], (int *)&eofWord, 1, 2);
-		if (zisError(status)) {
-			if (infoOld) free(infoOld);
-			zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
-			free(newPath);
-			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zrename_ID);
-		}
-	}
 
 	//  Update file statistics
 	zupdatePathStats(ifltab, newPath, (size_t)ifltab[zdssKeys.klenLastPath]);
diff --git a/heclib/heclib_c/src/headers/hecdssInternal.h b/heclib/heclib_c/src/headers/hecdssInternal.h
index 06792d2..1d937f0 100644
--- a/heclib/heclib_c/src/headers/hecdssInternal.h
+++ b/heclib/heclib_c/src/headers/hecdssInternal.h
@@ -163,7 +163,8 @@ int zwriteInternal(long long *ifltab, zStructTransfer* ztransfer, int checked,
 int zwriteNew(long long *ifltab, zStructTransfer* ztransfer,
 			  long long bufferControl[4], int *buffer, int bufferAction, int *wroteAtEOF);
 int zwriteExisting(long long *ifltab, zStructTransfer* ztransfer,
-			  long long bufferControl[4], int *buffer, int bufferAction, int *wroteAtEOF);
+			  long long bufferControl[4], int *buffer, int bufferAction, int *wroteAtEOF,
+			  long long *replacedAddress, int *replacedSize);
 
 //  Time series
 int ztsStoreReg7(long long *ifltab, zStructTimeSeries *tss, int storageFlag);
-- 
2.43.0


From e60257c86358d0d3110842c64fe94a89498c787a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:43 +0000
Subject: [PATCH 031/103] fix: an interrupted write or rename left incomplete
 bin entries, or records that a catalog left out

The hash and status that make a bin entry visible are written after the rest of
the entry, and the lists of a catalog grow when there are more pathnames than
the counts in the file header tell.
---
 heclib/heclib_c/src/Internal/zbinUpdate.c     | 17 ++++++-
 .../heclib_c/src/Internal/zcatalogInternal.c  | 50 ++++++++++++++++---
 2 files changed, 59 insertions(+), 8 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zbinUpdate.c b/heclib/heclib_c/src/Internal/zbinUpdate.c
index d3af688..a705e38 100644
--- a/heclib/heclib_c/src/Internal/zbinUpdate.c
+++ b/heclib/heclib_c/src/Internal/zbinUpdate.c
@@ -88,6 +88,7 @@ int zbinUpdate(long long *ifltab, const char* pathname, long long infoAddress,
 	int pathSizeInBin;
 	int boolSame;
 	int boolUseRecovered;
+	int boolAtEnd;
 	int jsize;
 	int julianFirst;
 	int julianLast;
@@ -172,6 +173,7 @@ int zbinUpdate(long long *ifltab, const char* pathname, long long infoAddress,
 		//  At end + 1, address of next set of pathname bin blocks
 		icount = 0;
 		while (1) {
+			boolAtEnd = (pathnameBin[icount+zdssBinKeys.kbinHash] == 0);
 			if (boolUseRecovered) {
 				//  Is this a deleted record with the same space allocated to store this pathname?
 				if ((pathnameBin[icount+zdssBinKeys.kbinStatus] == 11) || (pathnameBin[icount+zdssBinKeys.kbinStatus] == 12)) {
@@ -231,6 +233,12 @@ int zbinUpdate(long long *ifltab, const char* pathname, long long infoAddress,
 				pathnameSize = numberLongsInBytes((int)ifltab[zdssKeys.klenLastPath]);
 				jsize = zdssBinKeys.kbinSize + pathnameSize;
 				jsize += icount + 1;
+				//  An entry that was never completed may have left something here
+				if (boolAtEnd) {
+					for (temp=icount; temp<isize-1; temp++) {
+						pathnameBin[temp] = 0;
+					}
+				}
 				//  Do we have enough space left in this bin?
 				if (jsize >= isize) {
 					//  No, create a new bin
@@ -267,8 +275,13 @@ int zbinUpdate(long long *ifltab, const char* pathname, long long infoAddress,
 						ifltab[zdssKeys.kbinAddCurrent], ifltab[zdssKeys.kpathBinAddress], icount);
 					zmessageDebug(ifltab, DSS_FUNCTION_zbinUpdate_ID, "Bin space available at address: ", messageString);
 				}
-				//  Write the bin to disk
-				status = zput(ifltab, ifltab[zdssKeys.kbinAddCurrent], (int *)pathnameBin, isize, 2);
+				//  Write the bin to disk; the hash and status, which make the
+				//  entry visible, last, so that an entry is never seen incomplete
+				jsize = icount + zdssBinKeys.kbinPathLen;
+				status = zput(ifltab, ifltab[zdssKeys.kbinAddCurrent] + jsize, (int *)&pathnameBin[jsize], isize - jsize, 2);
+				if (!zisError(status)) {
+					status = zput(ifltab, ifltab[zdssKeys.kpathBinAddress], (int *)&pathnameBin[icount], zdssBinKeys.kbinPathLen, 2);
+				}
 				if (zisError(status)) {
 					return zerrorUpdate(ifltab, status, DSS_FUNCTION_zbinUpdate_ID);
 				}
diff --git a/heclib/heclib_c/src/Internal/zcatalogInternal.c b/heclib/heclib_c/src/Internal/zcatalogInternal.c
index 6203871..e072a48 100644
--- a/heclib/heclib_c/src/Internal/zcatalogInternal.c
+++ b/heclib/heclib_c/src/Internal/zcatalogInternal.c
@@ -10,6 +10,42 @@
 #include "heclib.h"
 #include "zerrorCodes.h"
 
+//  Reallocate an array with a larger size, clearing the added space
+static int growList(void **list, size_t oldSize, size_t newSize)
+{
+	void *larger;
+
+	larger = realloc(*list, newSize);
+	if (!larger) {
+		return 0;
+	}
+	memset((char *)larger + oldSize, 0, newSize - oldSize);
+	*list = larger;
+	return 1;
+}
+
+//  Make room for more pathnames in the catalog struct
+static int growCatalogLists(zStructCatalog *catStruct)
+{
+	int newSize;
+	size_t oldBytes;
+	size_t newBytes;
+
+	newSize = (catStruct->listSize * 2) + 10;
+	oldBytes = (size_t)catStruct->listSize * LONG_SIZE;
+	newBytes = (size_t)newSize * LONG_SIZE;
+
+	if (!growList((void **)&catStruct->pathnameList, oldBytes, newBytes)) return 0;
+	if (!growList((void **)&catStruct->sortAddresses, oldBytes, newBytes)) return 0;
+	if (catStruct->startDates && !growList((void **)&catStruct->startDates, oldBytes, newBytes)) return 0;
+	if (catStruct->endDates && !growList((void **)&catStruct->endDates, oldBytes, newBytes)) return 0;
+	if (!growList((void **)&catStruct->recordType, oldBytes, newBytes)) return 0;
+	if (!growList((void **)&catStruct->pathnameHash, oldBytes, newBytes)) return 0;
+	if (!growList((void **)&catStruct->lastWriteTimeRecord, oldBytes, newBytes)) return 0;
+	catStruct->listSize = newSize;
+	return 1;
+}
+
 
 /**
 *  Function:	zcatalogInternal
@@ -359,13 +395,15 @@ int zcatalogInternal (long long *ifltab, const char *pathWithWild, zStructCatalo
 							zmessageDebug(ifltab, DSS_FUNCTION_zcatalog_ID, "Pathname passes requests ", "");
 						}
 						if (catStruct) {
-							if ((catStruct->listSize > 0) && (countTotal >= catStruct->listSize)) {
+							if (countTotal >= catStruct->listSize) {
 								//  Not enough space!
-								//  This is okay, as someone might be writing new pathnames while we are cataloging....
-								/*status = zerrorProcessing(ifltab, DSS_FUNCTION_zcatalog_ID,
-												zdssErrorCodes.ARRAY_SPACE_EXHAUSTED, catStruct->listSize, (long long)countTotal,
-												zdssErrorSeverity.MEMORY_ERROR, "", "Catalog array length");  */
-								break;
+								//  Someone might be writing new pathnames while we are cataloging, or
+								//  an interrupted process might not have updated the counts in the file header
+								if (!growCatalogLists(catStruct)) {
+									return zerrorProcessing(ifltab, DSS_FUNCTION_zcatalog_ID,
+												zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, catStruct->listSize, (long long)countTotal,
+												zdssErrorSeverity.MEMORY_ERROR, "", "Extending catalog arrays");
+								}
 							}
 						}
 						//  If the number of characters in the pathname is not a multiple
-- 
2.43.0


From b5b52356feaa594c2038e1bb3c2293fa3519059f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:14 +0000
Subject: [PATCH 032/103] fix: an interrupted creation left a file that opened
 but lost what was stored in it

---
 heclib/heclib_c/src/Internal/zpermCreate.c | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zpermCreate.c b/heclib/heclib_c/src/Internal/zpermCreate.c
index d09b1df..dab01a9 100644
--- a/heclib/heclib_c/src/Internal/zpermCreate.c
+++ b/heclib/heclib_c/src/Internal/zpermCreate.c
@@ -222,14 +222,8 @@ int zpermCreate (long long *ifltab, int maxExpectedPathnames, int hashSize, int
 	//  a new file.  This will bypass check in zput
 	ifltab[zdssKeys.klocked] = 1;
 
-	//  Write these initial values to the permanent area (file header)
-	status = zpermWrite(ifltab);
-	if (zisError(status)) {
-		free((long long*)ifltab[zdssKeys.kfileHeader]);
-		free((long long*)ifltab[zdssKeys.kpathBin]);
-		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zpermCreate_ID);
-	}
-
+	//  The permanent area (file header) is not written until everything it refers
+	//  to is, so that an interruption cannot leave a file that seems usable
 
 	/*
 	Now set aside space for the lock arrays, which immediately follow
-- 
2.43.0


From 9d821c6531ff9daa52dc27ab25c63943bbb06c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:33 +0000
Subject: [PATCH 033/103] fix: after looking for reusable space in vain,
 released space was written over the file header

---
 heclib/heclib_c/src/Internal/zreclaimRead.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zreclaimRead.c b/heclib/heclib_c/src/Internal/zreclaimRead.c
index ceb9df1..97d62c5 100644
--- a/heclib/heclib_c/src/Internal/zreclaimRead.c
+++ b/heclib/heclib_c/src/Internal/zreclaimRead.c
@@ -98,6 +98,7 @@ long long* zreclaimRead (long long *ifltab, int *iarrayNumber, int boolRelease)
 				return (long long *)0;
 			}
 			fileHeader[zdssFileKeys.kreclaimSegAvailableAdd] = fileHeader[zdssFileKeys.kreclaimTableAddress];
+			fileHeader[zdssFileKeys.kreclaimSegNumber] = 0;
 		}
 		else { // if (inumber < fileHeader[zdssFileKeys.kreclaimSegmentsUsed]) {
 			//  Now we have to search for that array
@@ -117,8 +118,11 @@ long long* zreclaimRead (long long *ifltab, int *iarrayNumber, int boolRelease)
 					break;
 				}
 			}
-			fileHeader[zdssFileKeys.kreclaimSegAvailableAdd] = address;
-			fileHeader[zdssFileKeys.kreclaimSegNumber] = inumber;
+			//  After the last array, keep referring to that one
+			if (address != 0) {
+				fileHeader[zdssFileKeys.kreclaimSegAvailableAdd] = address;
+				fileHeader[zdssFileKeys.kreclaimSegNumber] = inumber;
+			}
 		}
 	}
 
-- 
2.43.0


From 558b2fe2e473be153fee7b32f7dce15753fcadcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:34 +0000
Subject: [PATCH 034/103] fix: hold the file lock for the whole of a rename

---
 heclib/heclib_c/src/Public/zrename.c | 91 ++++++++++++++--------------
 1 file changed, 47 insertions(+), 44 deletions(-)

diff --git a/heclib/heclib_c/src/Public/zrename.c b/heclib/heclib_c/src/Public/zrename.c
index 863a6bf..0b8c78e 100644
--- a/heclib/heclib_c/src/Public/zrename.c
+++ b/heclib/heclib_c/src/Public/zrename.c
@@ -54,8 +54,8 @@
 **/
 
 
-//
-int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
+//  Renames the record while the file is locked by zrename
+static int renameLocked(long long *ifltab, const char* oldPathname, const char* newPathname)
 {
 	long long *info;
 	long long *infoOld;
@@ -83,31 +83,9 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 	long long *fileHeader;
 
 
-	if (!oldPathname) {
-		return zerrorProcessing(ifltab, DSS_FUNCTION_zrename_ID, zdssErrorCodes.NULL_PATHNAME,
-			0, 0, zdssErrorSeverity.INVALID_ARGUMENT, "", "pathnameFrom is null");
-	}
-	if (!newPathname) {
-		return zerrorProcessing(ifltab, DSS_FUNCTION_zrename_ID, zdssErrorCodes.NULL_PATHNAME,
-			0, 0, zdssErrorSeverity.INVALID_ARGUMENT, "", "pathnameTo is null");
-	}
-
-	//  Messages and debug
-	if (zmessageLevel(ifltab, MESS_METHOD_UTILITY_ID, MESS_LEVEL_USER_DIAG)) {
-		zmessageDebugInt(ifltab, DSS_FUNCTION_zrename_ID, "Enter,  handle: ", zhandle(ifltab));
-		zmessageDebug(ifltab, DSS_FUNCTION_zrename_ID, "    Old Pathname: ",oldPathname);
-		zmessageDebug(ifltab, DSS_FUNCTION_zrename_ID, "    New Pathname: ",newPathname);
-	}
-
 	infoOld = 0;
 	fileHeader = (long long *)ifltab[zdssKeys.kfileHeader];
 
-	if (ifltab[zdssKeys.kopenStatus] != OPEN_STAT_WRITE) {
-		return zerrorProcessing(ifltab, DSS_FUNCTION_zrename_ID,
-			zdssErrorCodes.WRITE_ON_READ_ONLY, 0, 0,
-			zdssErrorSeverity.WARNING_NO_WRITE_ACCESS, oldPathname, newPathname);
-	}
-
 	//  Make a copy of the newPathname so that we can change it
 	newPath = mallocAndCopyPath(newPathname);
 	if (!newPath) {
@@ -143,13 +121,13 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 				free(newPath);
 				return status;
 			}
-			status = zrename(ifltab, oldPathname, tmpPath);
+			status = renameLocked(ifltab, oldPathname, tmpPath);
 			if (status != STATUS_OKAY) {
 				// error
 				free(newPath);
 				return status;
 			}
-			status = zrename(ifltab, tmpPath, newPathname);
+			status = renameLocked(ifltab, tmpPath, newPathname);
 			free(newPath);
 			return status;
 		}
@@ -192,7 +170,7 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 		stringCat(newPath, len, &newPathname[start], (end - start));
 		if ((lenOld == (int)strlen(newPath)) && zstringCompare(oldPathname, newPath, lenOld)) {
 			//  Only the case of the pathname remains to be changed
-			status = zrename(ifltab, oldPathname, newPath);
+			status = renameLocked(ifltab, oldPathname, newPath);
 			free(newPath);
 			return status;
 		}
@@ -223,14 +201,6 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 		}
 	}
 
-	//  Lock the file if we are in a multi-user access mode
-	//  And read the file header
-	status =  zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_ON, LOCKING_FLUSH_ON);
-	if (zisError(status)) {
-		free(newPath);
-		return zerrorEncodeHigh(status, DSS_FUNCTION_zrename_ID);
-	}
-
 	//  Compute the new info block size
 	numberInfoNew = zdssVals.infoSize + numberLongsInBytes((int)strlen(newPath));
 
@@ -238,7 +208,6 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 	ifltab[zdssKeys.kaddInfoLastPath] = 0;
 	status = zcheckInternal(ifltab, oldPathname, 1);
 	if (zisError(status)) {
-		zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
 		free(newPath);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zrename_ID);
 	}
@@ -246,7 +215,6 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 		if (zmessageLevel(ifltab, MESS_METHOD_UTILITY_ID, MESS_LEVEL_GENERAL)) {
 			zmessage2(ifltab, ZRENAME_NOT_EXIST, oldPathname);
 		}
-		zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
 		free(newPath);
 		return STATUS_RECORD_NOT_FOUND;
 	}
@@ -262,7 +230,6 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 	numberInfoOld = zdssVals.infoSize + pathnameSize;
 	status = zget(ifltab, ifltab[zdssKeys.kaddInfoLastPath], (int *)info, numberInfoOld, 2);
 	if (zisError(status)) {
-		zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
 		free(newPath);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zrename_ID);
 	}
@@ -293,7 +260,6 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 	status = zcheckInternal(ifltab, newPath, 1);
 	if (zisError(status)) {
 		if (infoOld) free(infoOld);
-		zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
 		free(newPath);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zrename_ID);
 	}
@@ -304,7 +270,6 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 		status = zbinNew(ifltab);
 		if (zisError(status)) {
 			if (infoOld) free(infoOld);
-			zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
 			free(newPath);
 			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zrename_ID);
 		}
@@ -313,7 +278,6 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 		status = zput(ifltab, ifltab[zdssKeys.kaddTableHash], (int *)&ifltab[zdssKeys.khashTableBinAdd], 1, 2);
 		if (zisError(status)) {
 			if (infoOld) free(infoOld);
-			zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
 			free(newPath);
 			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zrename_ID);
 		}
@@ -389,7 +353,6 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 	}
 	if (zisError(status)) {
 		if (infoOld) free(infoOld);
-		zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
 		free(newPath);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zrename_ID);
 	}
@@ -408,7 +371,6 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 	status = zpermWrite(ifltab);
 	if (zisError(status)) {
 		if (infoOld) free(infoOld);
-		zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
 		free(newPath);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zrename_ID);
 	}
@@ -418,7 +380,6 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 	}
 
 	if (infoOld) free(infoOld);
-	zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 
 	if (zmessageLevel(ifltab, MESS_METHOD_UTILITY_ID, MESS_LEVEL_USER_DIAG)) {
 		zmessageDebugInt(ifltab, DSS_FUNCTION_zrename_ID, "Exit, status: ", status);
@@ -428,3 +389,45 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 	return status;
 }
 
+//
+int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
+{
+	int status;
+
+	if (!oldPathname) {
+		return zerrorProcessing(ifltab, DSS_FUNCTION_zrename_ID, zdssErrorCodes.NULL_PATHNAME,
+			0, 0, zdssErrorSeverity.INVALID_ARGUMENT, "", "pathnameFrom is null");
+	}
+	if (!newPathname) {
+		return zerrorProcessing(ifltab, DSS_FUNCTION_zrename_ID, zdssErrorCodes.NULL_PATHNAME,
+			0, 0, zdssErrorSeverity.INVALID_ARGUMENT, "", "pathnameTo is null");
+	}
+
+	//  Messages and debug
+	if (zmessageLevel(ifltab, MESS_METHOD_UTILITY_ID, MESS_LEVEL_USER_DIAG)) {
+		zmessageDebugInt(ifltab, DSS_FUNCTION_zrename_ID, "Enter,  handle: ", zhandle(ifltab));
+		zmessageDebug(ifltab, DSS_FUNCTION_zrename_ID, "    Old Pathname: ",oldPathname);
+		zmessageDebug(ifltab, DSS_FUNCTION_zrename_ID, "    New Pathname: ",newPathname);
+	}
+
+	if (ifltab[zdssKeys.kopenStatus] != OPEN_STAT_WRITE) {
+		return zerrorProcessing(ifltab, DSS_FUNCTION_zrename_ID,
+			zdssErrorCodes.WRITE_ON_READ_ONLY, 0, 0,
+			zdssErrorSeverity.WARNING_NO_WRITE_ACCESS, oldPathname, newPathname);
+	}
+
+	//  Lock the file if we are in a multi-user access mode and read the file header.
+	//  The lock is held for the whole operation (the functions called lock at a lower level),
+	//  so that the records cannot be changed by others between checking and renaming them
+	status = zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_ON, LOCKING_FLUSH_ON);
+	if (zisError(status)) {
+		return zerrorEncodeHigh(status, DSS_FUNCTION_zrename_ID);
+	}
+
+	status = renameLocked(ifltab, oldPathname, newPathname);
+
+	zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+
+	return status;
+}
+
-- 
2.43.0


From 0ae0c8c43b26525fdf6d41a6dc4397c899c15e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:55 +0000
Subject: [PATCH 035/103] fix: set the lock level for a retained lock, too

---
 heclib/heclib_c/src/Internal/zlockActive.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Internal/zlockActive.c b/heclib/heclib_c/src/Internal/zlockActive.c
index d183c3a..f6bf62d 100644
--- a/heclib/heclib_c/src/Internal/zlockActive.c
+++ b/heclib/heclib_c/src/Internal/zlockActive.c
@@ -369,7 +369,6 @@ int zlockingOld(long long *ifltab, int level, int lock, int flush);
 				//  Successful lock.
 
 				ifltab[zdssKeys.klocked] = 1;
-				ifltab[zdssKeys.klockLevel] = level;
 				if (zmessageLevel(ifltab, MESS_METHOD_LOCKING_ID, MESS_LEVEL_INTERNAL_DIAG_1)) {
 					zmessageDebugInt(ifltab, DSS_FUNCTION_zlocking_ID, "File Locked;  Handle:", zhandle(ifltab));
 				}
@@ -380,6 +379,9 @@ int zlockingOld(long long *ifltab, int level, int lock, int flush);
 					zpermRead(ifltab);
 				}
 			}
+			//  The level has to be set for a lock that was retained, too (single user advisory), otherwise
+			//  the file is unlocked in the middle of the operation, if another process wants to write
+			ifltab[zdssKeys.klockLevel] = level;
 			//  Save PID on first write
 			if (ifltab[zdssKeys.kpidMyAddress] == 0) {
 				zpidWrite(ifltab);
-- 
2.43.0


From 24863ce1f35bbeadfd1f4c06b3e340a6cd62d251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:32 +0000
Subject: [PATCH 036/103] fix: a failed allocation of a directory bin was
 ignored and the record lost

---
 heclib/heclib_c/src/Internal/zbinUpdate.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Internal/zbinUpdate.c b/heclib/heclib_c/src/Internal/zbinUpdate.c
index a705e38..b491e2a 100644
--- a/heclib/heclib_c/src/Internal/zbinUpdate.c
+++ b/heclib/heclib_c/src/Internal/zbinUpdate.c
@@ -247,7 +247,10 @@ int zbinUpdate(long long *ifltab, const char* pathname, long long infoAddress,
 							ifltab[zdssKeys.kbinAddCurrent], icount);
 						zmessageDebug(ifltab, DSS_FUNCTION_zbinUpdate_ID, "Bin full for address: ", messageString);
 					}
-					zbinNew(ifltab);
+					status = zbinNew(ifltab);
+					if (zisError(status)) {
+						return zerrorUpdate(ifltab, status, DSS_FUNCTION_zbinUpdate_ID);
+					}
 					fileHeader[zdssFileKeys.kbinsOverflow]++;
 					icount = 0;
 				}
-- 
2.43.0


From 322d3949e0c9f67d9556ab612ae213bc009a198d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:46 +0000
Subject: [PATCH 037/103] fix: a failed creation of a file freed memory that
 was not allocated; closing a file that could not be opened crashed

---
 heclib/heclib_c/src/Internal/zcloseInternal.c |  9 +++++
 heclib/heclib_c/src/Internal/zopenInternal.c  |  8 +---
 heclib/heclib_c/src/Internal/zpermCreate.c    | 39 ++++++++-----------
 3 files changed, 27 insertions(+), 29 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zcloseInternal.c b/heclib/heclib_c/src/Internal/zcloseInternal.c
index 8b75873..578d9a3 100644
--- a/heclib/heclib_c/src/Internal/zcloseInternal.c
+++ b/heclib/heclib_c/src/Internal/zcloseInternal.c
@@ -84,6 +84,15 @@ int zcloseInternal(long long *ifltab, int boolReopen)
 		}
 	}
 
+	//  Nothing to close if the file could not be opened
+	if (ifltab[zdssKeys.kfileHeader] == 0) {
+		zmemoryFree(ifltab);
+		for (i = 0; i < 50; i++) {
+			ifltab[i] = 0;
+		}
+		return STATUS_NOT_OKAY;
+	}
+
 	//  Force all locks to be released
 	if (ifltab[zdssKeys.kmultiUserAccess] == EXCLUSIVE_ACCESS) {
 		ifltab[zdssKeys.kmultiUserAccess] = RELEASE_ACCESS;
diff --git a/heclib/heclib_c/src/Internal/zopenInternal.c b/heclib/heclib_c/src/Internal/zopenInternal.c
index ebc70fc..4ea593d 100644
--- a/heclib/heclib_c/src/Internal/zopenInternal.c
+++ b/heclib/heclib_c/src/Internal/zopenInternal.c
@@ -379,8 +379,7 @@
 		ifltab[zdssKeys.kmultiUserAccess] = EXCLUSIVE_ACCESS;
 		status = zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_ON, LOCKING_FLUSH_OFF);
 		if (zisError(status)) {
-			free((void*)ifltab[zdssKeys.kfileHeader]);
-			free((void*)ifltab[zdssKeys.kpathBin]);
+			zmemoryFree(ifltab);
 			closeFile(ihandle);
 			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zopen_ID);
 		}
@@ -431,10 +430,7 @@
 
 	status = zcheckKeys(ifltab);
 	if (zisError(status)) {
-		free((void*)ifltab[zdssKeys.kfileHeader]);
-		free((void*)ifltab[zdssKeys.kpathBin]);
-		free((void*)ifltab[zdssKeys.kfilename]);
-		free((void*)ifltab[zdssKeys.kfullFilename]);
+		zmemoryFree(ifltab);
 		closeFile(ihandle);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zopen_ID);
 	}
diff --git a/heclib/heclib_c/src/Internal/zpermCreate.c b/heclib/heclib_c/src/Internal/zpermCreate.c
index dab01a9..6197fc5 100644
--- a/heclib/heclib_c/src/Internal/zpermCreate.c
+++ b/heclib/heclib_c/src/Internal/zpermCreate.c
@@ -111,15 +111,14 @@ int zpermCreate (long long *ifltab, int maxExpectedPathnames, int hashSize, int
 	//  Pathname Bin
 	status = zmemoryGet(ifltab, zdssKeys.kpathBin, (int)fileHeader[zdssFileKeys.kbinSize], "Pathname bin");
 	if (zisError(status)) {
-		free((long long*)ifltab[zdssKeys.kfileHeader]);
+		zmemoryFree(ifltab);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zpermCreate_ID);
 	}
 
 	//  Record header (info area)
 	status = zmemoryGet(ifltab, zdssKeys.kinfo, zdssVals.maxInfoSize, "Record header (info area)");
 	if (zisError(status)) {
-		free((long long*)ifltab[zdssKeys.kfileHeader]);
-		free((long long*)ifltab[zdssKeys.kpathBin]);
+		zmemoryFree(ifltab);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zpermCreate_ID);
 	}
 
@@ -265,6 +264,10 @@ int zpermCreate (long long *ifltab, int maxExpectedPathnames, int hashSize, int
 	//  Note, we have one extra unused spot (for compatibility)
 	fileHeader[zdssFileKeys.klockAddressWord] = zgetFileSpace(ifltab, 3, 0, &atEOF);
 	status = zput(ifltab, fileHeader[zdssFileKeys.klockAddressWord], zero, -3, 2);
+	if (zisError(status)) {
+		zmemoryFree(ifltab);
+		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zpermCreate_ID);
+	}
 	ifltab[zdssKeys.klockExclusiveWord] = fileHeader[zdssFileKeys.klockAddressWord] + 1;
 
 	//  Space for the write lock area
@@ -272,8 +275,7 @@ int zpermCreate (long long *ifltab, int maxExpectedPathnames, int hashSize, int
 	fileHeader[zdssFileKeys.klockWriteArrayAddress] = zgetFileSpace(ifltab, (int)fileHeader[zdssFileKeys.klockArraySizes], 0, &atEOF);
 	status = zput(ifltab, fileHeader[zdssFileKeys.klockWriteArrayAddress] , zero, -(int)fileHeader[zdssFileKeys.klockArraySizes], 2);
 	if (zisError(status)) {
-		free((long long*)ifltab[zdssKeys.kfileHeader]);
-		free((long long*)ifltab[zdssKeys.kpathBin]);
+		zmemoryFree(ifltab);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zpermCreate_ID);
 	}
 
@@ -281,8 +283,7 @@ int zpermCreate (long long *ifltab, int maxExpectedPathnames, int hashSize, int
 	fileHeader[zdssFileKeys.klockReadArrayAddress] = zgetFileSpace(ifltab, (int)fileHeader[zdssFileKeys.klockArraySizes], 0, &atEOF);
 	status = zput(ifltab, fileHeader[zdssFileKeys.klockReadArrayAddress] , zero, -(int)fileHeader[zdssFileKeys.klockArraySizes], 2);
 	if (zisError(status)) {
-		free((long long*)ifltab[zdssKeys.kfileHeader]);
-		free((long long*)ifltab[zdssKeys.kpathBin]);
+		zmemoryFree(ifltab);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zpermCreate_ID);
 	}
 
@@ -290,8 +291,7 @@ int zpermCreate (long long *ifltab, int maxExpectedPathnames, int hashSize, int
 	fileHeader[zdssFileKeys.kpidArrayAddress] = zgetFileSpace(ifltab, (int)fileHeader[zdssFileKeys.klockArraySizes], 0, &atEOF);
 	status = zput(ifltab, fileHeader[zdssFileKeys.kpidArrayAddress] , zero, -(int)fileHeader[zdssFileKeys.klockArraySizes], 2);
 	if (zisError(status)) {
-		free((long long*)ifltab[zdssKeys.kfileHeader]);
-		free((long long*)ifltab[zdssKeys.kpathBin]);
+		zmemoryFree(ifltab);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zpermCreate_ID);
 	}
 
@@ -306,8 +306,7 @@ int zpermCreate (long long *ifltab, int maxExpectedPathnames, int hashSize, int
 	fileHeader[zdssFileKeys.kaddHashTableStart] = zgetFileSpace(ifltab, size, 0, &atEOF);
 	status = zput(ifltab, fileHeader[zdssFileKeys.kaddHashTableStart], zero, -size, 2);
 	if (zisError(status)) {
-		free((long long*)ifltab[zdssKeys.kfileHeader]);
-		free((long long*)ifltab[zdssKeys.kpathBin]);
+		zmemoryFree(ifltab);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zpermCreate_ID);
 	}
 
@@ -320,8 +319,7 @@ int zpermCreate (long long *ifltab, int maxExpectedPathnames, int hashSize, int
 	fileHeader[zdssFileKeys.kreclaimSegAvailableAdd] = fileHeader[zdssFileKeys.kreclaimTableAddress];
 	status = zput(ifltab, fileHeader[zdssFileKeys.kreclaimTableAddress], zero, -size, 2);
 	if (zisError(status)) {
-		free((long long*)ifltab[zdssKeys.kfileHeader]);
-		free((long long*)ifltab[zdssKeys.kpathBin]);
+		zmemoryFree(ifltab);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zpermCreate_ID);
 	}
 	fileHeader[zdssFileKeys.kreclaimTotal] = 0;
@@ -336,8 +334,7 @@ int zpermCreate (long long *ifltab, int maxExpectedPathnames, int hashSize, int
 	fileHeader[zdssFileKeys.kaddNextEmptyBin] = fileHeader[zdssFileKeys.kaddFirstBin];
 	status = zput(ifltab, fileHeader[zdssFileKeys.kaddFirstBin], zero, -size, 2);
 	if (zisError(status)) {
-		free((long long*)ifltab[zdssKeys.kfileHeader]);
-		free((long long*)ifltab[zdssKeys.kpathBin]);
+		zmemoryFree(ifltab);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zpermCreate_ID);
 	}
 	fileHeader[zdssFileKeys.kbinsRemainInBlock] = fileHeader[zdssFileKeys.kbinsPerBlock];
@@ -345,24 +342,21 @@ int zpermCreate (long long *ifltab, int maxExpectedPathnames, int hashSize, int
 	//  Write the EOF flag
 	status = zwriteEOF(ifltab);
 	if (zisError(status)) {
-		free((long long*)ifltab[zdssKeys.kfileHeader]);
-		free((long long*)ifltab[zdssKeys.kpathBin]);
+		zmemoryFree(ifltab);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zpermCreate_ID);
 	}
 
 	//  Write updated header to disk (includes hash table, path bin)
 	status = zpermWrite(ifltab);
 	if (zisError(status)) {
-		free((long long*)ifltab[zdssKeys.kfileHeader]);
-		free((long long*)ifltab[zdssKeys.kpathBin]);
+		zmemoryFree(ifltab);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zpermCreate_ID);
 	}
 
 	//  Force flush to disk
 	status = zflushToDisk(ifltab, 1);
 	if (zisError(status)) {
-		free((long long*)ifltab[zdssKeys.kfileHeader]);
-		free((long long*)ifltab[zdssKeys.kpathBin]);
+		zmemoryFree(ifltab);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zpermCreate_ID);
 	}
 
@@ -372,8 +366,7 @@ int zpermCreate (long long *ifltab, int maxExpectedPathnames, int hashSize, int
 
 	status = zcheckKeys(ifltab);
 	if (zisError(status)) {
-		free((long long*)ifltab[zdssKeys.kfileHeader]);
-		free((long long*)ifltab[zdssKeys.kpathBin]);
+		zmemoryFree(ifltab);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zpermCreate_ID);
 	}
 
-- 
2.43.0


From aebe5e0c3646867f5d85f22c254a52b9259cf6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:18 +0000
Subject: [PATCH 038/103] fix: an in-place squeeze ignored errors while copying
 the file back

---
 heclib/heclib_c/src/Internal/copyFile.c | 10 ++++++----
 heclib/heclib_c/src/Public/zsqueeze7.c  |  2 ++
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/copyFile.c b/heclib/heclib_c/src/Internal/copyFile.c
index 4262d4e..728305d 100644
--- a/heclib/heclib_c/src/Internal/copyFile.c
+++ b/heclib/heclib_c/src/Internal/copyFile.c
@@ -59,16 +59,18 @@ int copyFile(long long *ifltab, int handleTo)
 	zresetProgress(zhandle(ifltab), (long long)numberReads);
 
 	for (i=0; i<numberReads; i++) {
+		if ((i+1) == numberReads) {
+			//  Copy through the end of file flag (data may contain a word with the same value)
+			numberInts = (int)(fileHeader[zdssFileKeys.kfileSize] - iaddress + 1) * 2;
+		}
 		istat = zreadDisk (ihandle, 0, iaddress, space, numberInts);
 		if (istat) {
+			break;
 		}
 		if (handleTo > 0) {
-			if ((i+1) == numberReads) {
-				//  Copy through the end of file flag (data may contain a word with the same value)
-				numberInts = (int)(fileHeader[zdssFileKeys.kfileSize] - iaddress + 1) * 2;
-			}
 			istat = zwriteDisk (handleTo, 0, iaddress, space, numberInts);
 			if (istat) {
+				break;
 			}
 		}
 		iaddress += isize;
diff --git a/heclib/heclib_c/src/Public/zsqueeze7.c b/heclib/heclib_c/src/Public/zsqueeze7.c
index 0b76668..9287e8f 100644
--- a/heclib/heclib_c/src/Public/zsqueeze7.c
+++ b/heclib/heclib_c/src/Public/zsqueeze7.c
@@ -469,6 +469,7 @@ int zsqueeze7(long long *ifltab, int boolOnlyIfNeeded, int boolInPlace)
 			for (i = 1; i < NUMBER_METHOD_NAMES; ++i) {
 				zsetMessageLevel(zmessaging.methodLevel[i], originalMessageLevels[i]);
 			}
+			zclose(ifltabTemp);
 			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zsqueeze_ID);
 		}
 
@@ -481,6 +482,7 @@ int zsqueeze7(long long *ifltab, int boolOnlyIfNeeded, int boolInPlace)
 			for (i = 1; i < NUMBER_METHOD_NAMES; ++i) {
 				zsetMessageLevel(zmessaging.methodLevel[i], originalMessageLevels[i]);
 			}
+			zclose(ifltabTemp);
 			return zerrorProcessing(ifltab, DSS_FUNCTION_zsqueeze_ID, zdssErrorCodes.CANNOT_SQUEEZE,
 									status, 0, zdssErrorSeverity.WARNING_NO_FILE_ACCESS, "",
 									"Incomplete update, file failed check.");
-- 
2.43.0


From 2fe547b78f633a8fdcff1bbf75a0926fe3157755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:05 +0000
Subject: [PATCH 039/103] fix: a squeeze by replacement did not notice that the
 file could not be renamed, and an empty file took its place

---
 heclib/heclib_c/src/Public/zsqueeze7.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/heclib/heclib_c/src/Public/zsqueeze7.c b/heclib/heclib_c/src/Public/zsqueeze7.c
index 9287e8f..3ee373f 100644
--- a/heclib/heclib_c/src/Public/zsqueeze7.c
+++ b/heclib/heclib_c/src/Public/zsqueeze7.c
@@ -254,7 +254,7 @@ int zsqueeze7(long long *ifltab, int boolOnlyIfNeeded, int boolInPlace)
 		//  Rename the current file to the temp name, just to be sure we can do this step
 		//  (This is a common failure point, mainly due to permission or similar)
 		status = rename(fullFilename, tempName);
-		if (zisError(status)) {
+		if (status != 0) {
 			for (i = 1; i < NUMBER_METHOD_NAMES; ++i) {
 				zsetMessageLevel(zmessaging.methodLevel[i], originalMessageLevels[i]);
 			}
@@ -267,7 +267,7 @@ int zsqueeze7(long long *ifltab, int boolOnlyIfNeeded, int boolInPlace)
 
 	   //  Almost always able to rename back
 	   status = rename(tempName, fullFilename);
-	   if (zisError(status)) {
+	   if (status != 0) {
 		   for (i = 1; i < NUMBER_METHOD_NAMES; ++i) {
 			   zsetMessageLevel(zmessaging.methodLevel[i], originalMessageLevels[i]);
 		   }
@@ -528,7 +528,7 @@ int zsqueeze7(long long *ifltab, int boolOnlyIfNeeded, int boolInPlace)
 #else
 		status = unlink(fullFilename);
 #endif
-	    if (zisError(status)) {
+	    if (status != 0) {
 			for (i = 1; i < NUMBER_METHOD_NAMES; ++i) {
 				zsetMessageLevel(zmessaging.methodLevel[i], originalMessageLevels[i]);
 			}
@@ -540,7 +540,7 @@ int zsqueeze7(long long *ifltab, int boolOnlyIfNeeded, int boolInPlace)
 
 	   //  Rename temp to old file
 	   status = rename(tempName, fullFilename);
-	   if (zisError(status)) {
+	   if (status != 0) {
 		   for (i = 1; i < NUMBER_METHOD_NAMES; ++i) {
 			   zsetMessageLevel(zmessaging.methodLevel[i], originalMessageLevels[i]);
 		   }
-- 
2.43.0


From f3aa2933303a8df55fe9eed23478033591c759bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:55 +0000
Subject: [PATCH 040/103] fix: cancelling a squeeze while it copied the file
 back truncated the file

---
 heclib/heclib_c/src/Internal/copyFile.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Internal/copyFile.c b/heclib/heclib_c/src/Internal/copyFile.c
index 728305d..ed4fc2d 100644
--- a/heclib/heclib_c/src/Internal/copyFile.c
+++ b/heclib/heclib_c/src/Internal/copyFile.c
@@ -76,7 +76,8 @@ int copyFile(long long *ifltab, int handleTo)
 		iaddress += isize;
 		zprogress.currentNumber = i;
 		zprogress.handle = zhandle(ifltab);
-		if (zprogress.interrupt) break;
+		//  Do not leave the other file incomplete
+		if (zprogress.interrupt && (handleTo <= 0)) break;
 	}
 
 	return istat;
-- 
2.43.0


From 2872c1781482eb278ecffd704323d016648141f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:09 +0000
Subject: [PATCH 041/103] fix: when taking reclaimed space could not be
 recorded, the space was used and later handed out again

---
 heclib/heclib_c/src/Internal/zgetFileSpace.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Internal/zgetFileSpace.c b/heclib/heclib_c/src/Internal/zgetFileSpace.c
index b5fdef2..fd06b0d 100644
--- a/heclib/heclib_c/src/Internal/zgetFileSpace.c
+++ b/heclib/heclib_c/src/Internal/zgetFileSpace.c
@@ -111,7 +111,10 @@ long long zgetFileSpace(long long *ifltab, int sizeNeeded, int boolReclaimedOK,
 				if (fileHeader[zdssFileKeys.kreclaimTotal] < 0) fileHeader[zdssFileKeys.kreclaimTotal] = 0;
 				fileHeader[zdssFileKeys.kreclaimedSpace]++;
 				//  save reclaim Array
-				zreclaimWrite(ifltab);
+				if (zreclaimWrite(ifltab) != 0) {
+					//  The file still has this space as available, so do not use it
+					address = 0;
+				}
 				break;
 			}
 			else {
-- 
2.43.0


From d199d42668bc0e6d20b19a4d703a6277d35e6e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:59 +0000
Subject: [PATCH 042/103] fix: the check-sum of a record with a third data
 array was computed over the wrong number of words

---
 heclib/heclib_c/src/Public/zgetDataCRC.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Public/zgetDataCRC.c b/heclib/heclib_c/src/Public/zgetDataCRC.c
index d07a804..cf6b3a5 100644
--- a/heclib/heclib_c/src/Public/zgetDataCRC.c
+++ b/heclib/heclib_c/src/Public/zgetDataCRC.c
@@ -103,7 +103,7 @@ unsigned int zgetDataCRC(long long *ifltab, const char *pathname, unsigned int c
 		}
 	}
 	if (ztransfer->values3) {
-		len = ztransfer->values1Number * 4;
+		len = ztransfer->values3Number * 4;
 		if (endian) {
 			crcValue = crc32_block_endian1(crcValue, ztransfer->values3, len, crc_table);
 		}
-- 
2.43.0


From 52124fb70b842adce81d68c9866c0f8e1dbd378f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:59 +0000
Subject: [PATCH 043/103] fix: zbinaryStoreFromFile left the input file open
 after an error, and searching for the first block of a series hid read errors

---
 heclib/heclib_c/src/Public/zbinaryStoreFromFile.c         | 8 ++++++++
 heclib/heclib_c/src/SemiPublic/ztsGetFirstLastPathnames.c | 3 +++
 2 files changed, 11 insertions(+)

diff --git a/heclib/heclib_c/src/Public/zbinaryStoreFromFile.c b/heclib/heclib_c/src/Public/zbinaryStoreFromFile.c
index 37efa32..c988667 100644
--- a/heclib/heclib_c/src/Public/zbinaryStoreFromFile.c
+++ b/heclib/heclib_c/src/Public/zbinaryStoreFromFile.c
@@ -80,6 +80,7 @@ int zbinaryStoreFromFile(long long *ifltab, const char *pathname, const char *fi
 	numberCharacters = zfileSize(ihandle);
 	if (numberCharacters <= 0) {
 		perror("Read status");
+		closeFile(ihandle);
 		return zerrorProcessing(ifltab, DSS_FUNCTION_zbinaryStore_ID,
 			zdssErrorCodes.UNABLE_TO_ACCESS_FILE, 0, 0,
 			zdssErrorSeverity.WARNING_NO_FILE_ACCESS,
@@ -88,6 +89,7 @@ int zbinaryStoreFromFile(long long *ifltab, const char *pathname, const char *fi
 
 	transferStruct = zstructTransferNew(pathname, 0);
 	if (!transferStruct) {
+		closeFile(ihandle);
 		return zerrorProcessing(ifltab, DSS_FUNCTION_zbinaryStore_ID,
 								zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, 0, 0,
 								zdssErrorSeverity.MEMORY_ERROR,
@@ -104,6 +106,10 @@ int zbinaryStoreFromFile(long long *ifltab, const char *pathname, const char *fi
 	status = readBytes(ihandle, (char *)transferStruct->values1, transferStruct->logicalNumberValues);
 	if (status < 0) {
 		perror("Read status");
+		closeFile(ihandle);
+		free(transferStruct->values1);
+		transferStruct->values1 = (int *)0;
+		zstructFree(transferStruct);
 		return zerrorProcessing(ifltab, DSS_FUNCTION_zbinaryStore_ID,
 								zdssErrorCodes.UNABLE_TO_ACCESS_FILE, 0, 0,
 								zdssErrorSeverity.WARNING_NO_FILE_ACCESS,
@@ -116,6 +122,8 @@ int zbinaryStoreFromFile(long long *ifltab, const char *pathname, const char *fi
 	if (zisError(status)) {
 		//  An error code
 		status = zerrorUpdate(ifltab, status, DSS_FUNCTION_zbinaryStore_ID);
+		free(transferStruct->values1);
+		transferStruct->values1 = (int *)0;
 		zstructFree(transferStruct);
 		return status;
 	}
diff --git a/heclib/heclib_c/src/SemiPublic/ztsGetFirstLastPathnames.c b/heclib/heclib_c/src/SemiPublic/ztsGetFirstLastPathnames.c
index 6010bf9..5eff490 100644
--- a/heclib/heclib_c/src/SemiPublic/ztsGetFirstLastPathnames.c
+++ b/heclib/heclib_c/src/SemiPublic/ztsGetFirstLastPathnames.c
@@ -154,6 +154,9 @@ int ztsGetFirstLastPathnames(long long *ifltab, const char *pathnameSeed,
 			if (timeWindow != 0) free(timeWindow);
 			zstructFree(tsPaths);
 			tsPaths = 0;
+			if (zisError(number)) {
+				return number;
+			}
 			return STATUS_RECORD_NOT_FOUND;
 		}
 		zpathnameGetPart(tsPaths->pathnameList[0], 4, dPart, sizeof(dPart));
-- 
2.43.0


From fa5c4228a2cbf92af8db1b090524d727a97acb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:37 +0000
Subject: [PATCH 044/103] fix: a read error while looking for the range of a
 time series widened the range instead of being reported

---
 heclib/heclib_c/src/Internal/ztsProcessTimes.c | 3 +++
 heclib/heclib_c/src/Public/ztsGetDateRange.c   | 9 +++++++++
 2 files changed, 12 insertions(+)

diff --git a/heclib/heclib_c/src/Internal/ztsProcessTimes.c b/heclib/heclib_c/src/Internal/ztsProcessTimes.c
index 6a72823..693b15a 100644
--- a/heclib/heclib_c/src/Internal/ztsProcessTimes.c
+++ b/heclib/heclib_c/src/Internal/ztsProcessTimes.c
@@ -303,6 +303,9 @@ int ztsProcessTimes(long long *ifltab, zStructTimeSeries *tss, int boolStore)
 			//  If no time window, get it from the file (slow)
 			if (!timeWindowDefined) {
 				status = ztsGetDateRange(ifltab, path, 1, &tss->timeWindow->startJulian, &tss->timeWindow->endJulian);
+				if (zisError(status)) {
+					return zerrorUpdate(ifltab, status, DSS_FUNCTION_ztsProcessTimes_ID);
+				}
 				if (status == STATUS_OKAY) {
 					if (tss->timeIntervalSeconds > 0) {
 						tss->timeWindow->startTimeSeconds = tss->timeWindow->intervalSeconds;
diff --git a/heclib/heclib_c/src/Public/ztsGetDateRange.c b/heclib/heclib_c/src/Public/ztsGetDateRange.c
index 9467006..bcb59c1 100644
--- a/heclib/heclib_c/src/Public/ztsGetDateRange.c
+++ b/heclib/heclib_c/src/Public/ztsGetDateRange.c
@@ -93,6 +93,9 @@ int ztsGetDateRange(long long *ifltab, const char *pathname, int boolFullSet,
 		status =  ztsGetFirstLastRecordTimes(ifltab, pathFirst,
 								firstValidJulian, &seconds,
 								&dummy, &seconds, 0);
+		if (zisError(status)) {
+			return status;
+		}
 		if (status != STATUS_RECORD_FOUND) {
 			len = zpathnameGetPart(pathFirst, 4, dPart, sizeof(dPart));
 			//  Get the Julian date
@@ -104,6 +107,9 @@ int ztsGetDateRange(long long *ifltab, const char *pathname, int boolFullSet,
 		status =  ztsGetFirstLastRecordTimes(ifltab, pathLast,
 								&dummy, &seconds,
 								lastValidJulian, &seconds, 0);
+		if (zisError(status)) {
+			return status;
+		}
 		if (status != STATUS_RECORD_FOUND) {
 			len = zpathnameGetPart(pathLast, 4, dPart, sizeof(dPart));
 			//  Get the Julian date
@@ -128,6 +134,9 @@ int ztsGetDateRange(long long *ifltab, const char *pathname, int boolFullSet,
 		status =  ztsGetFirstLastRecordTimes(ifltab, pathname,
 								firstValidJulian, &seconds,
 								lastValidJulian, &seconds, 0);
+		if (zisError(status)) {
+			return status;
+		}
 		if (status != STATUS_RECORD_FOUND) {
 			len = zpathnameGetPart(pathname, 4, dPart, sizeof(dPart));
 			//  Get the Julian date
-- 
2.43.0


From 68914a8738450262624e1973f373f79b717dc5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:06 +0000
Subject: [PATCH 045/103] fix: every sorted catalog left two temporary file
 descriptors open

---
 heclib/heclib_c/src/Internal/zcatInternalSort.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zcatInternalSort.c b/heclib/heclib_c/src/Internal/zcatInternalSort.c
index 986483d..501efb1 100644
--- a/heclib/heclib_c/src/Internal/zcatInternalSort.c
+++ b/heclib/heclib_c/src/Internal/zcatInternalSort.c
@@ -247,6 +247,8 @@ int zcatInternalSort(long long *ifltab, const char *pathWithWild, zStructCatalog
 		free(tempUnsorted);
 		return -1;
 	}
+	//  Only the name is needed; the file is opened again below
+	close(fileId);
 	tempSorted=(char*)malloc(32*sizeof(char));
 	memset( tempSorted, 0, sizeof(tempSorted));
 	strcpy( tempSorted, "/tmp/cat_sorted-XXXXXX");
@@ -255,9 +257,12 @@ int zcatInternalSort(long long *ifltab, const char *pathWithWild, zStructCatalog
 	{
 		if (nonSortedStruct) zstructFree(nonSortedStruct);
 		nonSortedStruct = 0;
+		unlink(tempUnsorted);
+		free(tempUnsorted);
 		free(tempSorted);
 		return -1;
 	}
+	close(fileId);
 #endif
 	if (!tempUnsorted) {
 		if (nonSortedStruct) zstructFree(nonSortedStruct);
@@ -283,9 +288,6 @@ int zcatInternalSort(long long *ifltab, const char *pathWithWild, zStructCatalog
 	}
 	//  For both DSS-6 and DSS-7
 	numberPathnames = zcatalogInternal (ifltab, pathWithWild, nonSortedStruct, unsortedHandle, 0, 0, boolCollection, 1);
-	if (numberPathnames < 0) {
-		return numberPathnames;
-	}
 	closeFile(unsortedHandle);
 	unsortedHandle = 0;
 	if (numberPathnames < 0) {
@@ -293,12 +295,13 @@ int zcatInternalSort(long long *ifltab, const char *pathWithWild, zStructCatalog
 		_unlink(tempUnsorted);
 #else
 		unlink(tempUnsorted);
+		unlink(tempSorted);
 #endif
 		free(tempUnsorted);
 		free(tempSorted);
 		if (nonSortedStruct) zstructFree(nonSortedStruct);
 		nonSortedStruct = 0;
-		return status;
+		return numberPathnames;
 	}
 
 	status = sortfiles (tempUnsorted, tempSorted);
-- 
2.43.0


From 87af76fa2d6d8233737443a280f3bee7b50c8dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:06 +0000
Subject: [PATCH 046/103] fix: the data type range of a catalog, and the write
 time of a sorted one, were ignored

---
 heclib/heclib_c/src/Internal/zcatInternalSort.c | 2 ++
 heclib/heclib_c/src/Internal/zcatalogInternal.c | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/heclib/heclib_c/src/Internal/zcatInternalSort.c b/heclib/heclib_c/src/Internal/zcatInternalSort.c
index 501efb1..4169c1d 100644
--- a/heclib/heclib_c/src/Internal/zcatInternalSort.c
+++ b/heclib/heclib_c/src/Internal/zcatInternalSort.c
@@ -131,6 +131,8 @@ int zcatInternalSort(long long *ifltab, const char *pathWithWild, zStructCatalog
 		nonSortedStruct->statusWanted = sortedStruct->statusWanted;
 		nonSortedStruct->typeWantedStart = sortedStruct->typeWantedStart;
 		nonSortedStruct->typeWantedEnd = sortedStruct->typeWantedEnd;
+		nonSortedStruct->lastWriteTimeSearch = sortedStruct->lastWriteTimeSearch;
+		nonSortedStruct->lastWriteTimeSearchFlag = sortedStruct->lastWriteTimeSearchFlag;
 	}
 	sortAddresses = 0;
 
diff --git a/heclib/heclib_c/src/Internal/zcatalogInternal.c b/heclib/heclib_c/src/Internal/zcatalogInternal.c
index e072a48..ff088f5 100644
--- a/heclib/heclib_c/src/Internal/zcatalogInternal.c
+++ b/heclib/heclib_c/src/Internal/zcatalogInternal.c
@@ -377,6 +377,10 @@ int zcatalogInternal (long long *ifltab, const char *pathWithWild, zStructCatalo
 								}
 							}
 						}
+						else {
+							//  Not one of the data types asked for
+							boolFound = 0;
+						}
 					}
 					//  If it is a deleted record, be sure the info area is still there
 					if (boolFound && (statusWanted == REC_STATUS_DELETED) && (ifltab[zdssKeys.kreclaimLevel] > RECLAIM_NONE)) {
-- 
2.43.0


From bbe616b525355c48b61bedd2b75aa829b0d10f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:07 +0000
Subject: [PATCH 047/103] fix: matching a part with an ending longer than the
 part read before the part's start

---
 heclib/heclib_c/src/Internal/zcatComparePath.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/heclib/heclib_c/src/Internal/zcatComparePath.c b/heclib/heclib_c/src/Internal/zcatComparePath.c
index 6761858..d5ec90c 100644
--- a/heclib/heclib_c/src/Internal/zcatComparePath.c
+++ b/heclib/heclib_c/src/Internal/zcatComparePath.c
@@ -174,6 +174,10 @@ int zcatComparePath(const char *cpath, int *partAction, int *lengths,
 			else if (partAction[i] == 3) {
 				//  Ends With
 				istart = len - lengths[i];
+				if (istart < 0) {
+					//  Shorter than what it is to end with
+					return 0;
+				}
 				result = zstringCompare(&pathPart[istart], stringToFind, (size_t)lengths[i]);
 				if (!result) {
 					return 0;
-- 
2.43.0


From 47a102212572bc4a8072f8b0d62b1bfc01d6f68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:07 +0000
Subject: [PATCH 048/103] fix: sorted catalogs cut the dates and parts they
 sort by, so that series and grids were not in order of time

---
 heclib/heclib_c/src/Internal/zcatInternalSort.c | 2 +-
 heclib/heclib_c/src/Internal/zcatSortPath.c     | 5 +++--
 heclib/heclib_c/src/Internal/zcatalogInternal.c | 7 +++++--
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zcatInternalSort.c b/heclib/heclib_c/src/Internal/zcatInternalSort.c
index 4169c1d..f363ef5 100644
--- a/heclib/heclib_c/src/Internal/zcatInternalSort.c
+++ b/heclib/heclib_c/src/Internal/zcatInternalSort.c
@@ -91,7 +91,7 @@ int zcatInternalSort(long long *ifltab, const char *pathWithWild, zStructCatalog
 	int icount;
 	long long* sortAddresses;
 	long long *fileHeader;
-	char cline[400];
+	char cline[(MAX_PATHNAME_SIZE*2) + 2];   //  As zcatSortPath() writes them, plus the end of the line
 	char *tempUnsorted;
 	char *tempSorted;
 	zStructCatalog *nonSortedStruct=0;
diff --git a/heclib/heclib_c/src/Internal/zcatSortPath.c b/heclib/heclib_c/src/Internal/zcatSortPath.c
index abef83a..7653d0a 100644
--- a/heclib/heclib_c/src/Internal/zcatSortPath.c
+++ b/heclib/heclib_c/src/Internal/zcatSortPath.c
@@ -131,11 +131,12 @@ int zcatSortPath(int handle, const char *pathname, size_t pathnameLen, int dataT
 		}
 	}
 	else if ((dataType >= 400) && (dataType < 500)) {
-		status = spatialDateTime(cpart[3], &jdate, &mins);
+		len = stringCopy (cdate, sizeof(cdate), cpart[3], (size_t)partLen[3]);
+		status = spatialDateTime(cdate, &jdate, &mins);
 		if (status == STATUS_OKAY) {
 			jdate += 100000;
 			mins /= SECS_IN_1_MINUTE;
-			_snprintf_s(cdate, sizeof(cdate), _TRUNCATE, " %.10d %d", jdate, mins);
+			_snprintf_s(cdate, sizeof(cdate), _TRUNCATE, " %.10d %.4d", jdate, mins);
 			cpart[3] = cdate;
 			partLen[3] = (int)strlen(cdate);
 		}
diff --git a/heclib/heclib_c/src/Internal/zcatalogInternal.c b/heclib/heclib_c/src/Internal/zcatalogInternal.c
index ff088f5..4de941c 100644
--- a/heclib/heclib_c/src/Internal/zcatalogInternal.c
+++ b/heclib/heclib_c/src/Internal/zcatalogInternal.c
@@ -286,9 +286,12 @@ int zcatalogInternal (long long *ifltab, const char *pathWithWild, zStructCatalo
 	partMax[0] = (int)fileHeader[zdssFileKeys.kmaxA];
 	partMax[1] = (int)fileHeader[zdssFileKeys.kmaxB];
 	partMax[2] = (int)fileHeader[zdssFileKeys.kmaxC];
-	partMax[3] = (int)fileHeader[zdssFileKeys.kmaxF];
+	partMax[3] = (int)fileHeader[zdssFileKeys.kmaxD];
 	partMax[4] = (int)fileHeader[zdssFileKeys.kmaxE];
-	partMax[5] = (int)fileHeader[zdssFileKeys.kmaxD];
+	partMax[5] = (int)fileHeader[zdssFileKeys.kmaxF];
+	//  Dates, times and intervals are sorted as numbers (see zcatSortPath)
+	if (partMax[3] < 16) partMax[3] = 16;
+	if (partMax[4] < 11) partMax[4] = 11;
 
 	countRecs = 0;
 	countTotal = 0;
-- 
2.43.0


From a4f076954307822606caf8356b823628895aa2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:44 +0000
Subject: [PATCH 049/103] fix: sorted catalogs did not return the type, hash,
 write times and check-sum of the records

---
 .../heclib_c/src/Internal/zcatInternalSort.c  | 115 ++++++++++--------
 1 file changed, 62 insertions(+), 53 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zcatInternalSort.c b/heclib/heclib_c/src/Internal/zcatInternalSort.c
index f363ef5..0f6d10e 100644
--- a/heclib/heclib_c/src/Internal/zcatInternalSort.c
+++ b/heclib/heclib_c/src/Internal/zcatInternalSort.c
@@ -18,6 +18,57 @@
 
 
 
+//  Allocates the lists of the sorted struct that the non sorted one has.  Returns 0 if there is not enough memory.
+static int allocateSortedLists(zStructCatalog *sortedStruct, zStructCatalog *nonSortedStruct, int numberPathnames)
+{
+	size_t number = (size_t)numberPathnames;
+
+	if (number == 0) number = 1;
+	sortedStruct->numberPathnames = numberPathnames;
+	sortedStruct->listSize = numberPathnames;
+	sortedStruct->lastWriteTimeFile = nonSortedStruct->lastWriteTimeFile;
+
+	sortedStruct->pathnameList = (char **)calloc(number, WORD_SIZE);
+	if (!sortedStruct->pathnameList) return 0;
+	sortedStruct->allocated[zSTRUCT_pathname] = 1;
+	if (nonSortedStruct->startDates && nonSortedStruct->endDates) {
+		sortedStruct->startDates = (int *)calloc(number, WORD_SIZE);
+		sortedStruct->endDates   = (int *)calloc(number, WORD_SIZE);
+		if (!sortedStruct->startDates || !sortedStruct->endDates) return 0;
+	}
+	if (nonSortedStruct->recordType) {
+		sortedStruct->recordType = (int *)calloc(number, WORD_SIZE);
+		if (!sortedStruct->recordType) return 0;
+	}
+	if (nonSortedStruct->pathnameHash) {
+		sortedStruct->pathnameHash = (long long *)calloc(number, LONG_SIZE);
+		if (!sortedStruct->pathnameHash) return 0;
+	}
+	if (nonSortedStruct->lastWriteTimeRecord) {
+		sortedStruct->lastWriteTimeRecord = (long long *)calloc(number, LONG_SIZE);
+		if (!sortedStruct->lastWriteTimeRecord) return 0;
+	}
+	if (nonSortedStruct->crcValues) {
+		sortedStruct->crcValues = (unsigned int *)calloc(number, sizeof(unsigned int));
+		if (!sortedStruct->crcValues) return 0;
+	}
+	return 1;
+}
+
+//  Moves the pathname at position "from" of the non sorted struct, with its attributes, to position "to" of the sorted one
+static void moveToSorted(zStructCatalog *sortedStruct, int to, zStructCatalog *nonSortedStruct, int from)
+{
+	sortedStruct->pathnameList[to] = nonSortedStruct->pathnameList[from];
+	nonSortedStruct->pathnameList[from] = 0;
+	if (sortedStruct->startDates) sortedStruct->startDates[to] = nonSortedStruct->startDates[from];
+	if (sortedStruct->endDates) sortedStruct->endDates[to] = nonSortedStruct->endDates[from];
+	if (sortedStruct->recordType) sortedStruct->recordType[to] = nonSortedStruct->recordType[from];
+	if (sortedStruct->pathnameHash) sortedStruct->pathnameHash[to] = nonSortedStruct->pathnameHash[from];
+	if (sortedStruct->lastWriteTimeRecord) sortedStruct->lastWriteTimeRecord[to] = nonSortedStruct->lastWriteTimeRecord[from];
+	if (sortedStruct->crcValues) sortedStruct->crcValues[to] = nonSortedStruct->crcValues[from];
+	if (sortedStruct->sortAddresses) sortedStruct->sortAddresses[to] = nonSortedStruct->sortAddresses[from];
+}
+
 /**
 *  Function:	zcatInternalSort
 *
@@ -133,6 +184,7 @@ int zcatInternalSort(long long *ifltab, const char *pathWithWild, zStructCatalog
 		nonSortedStruct->typeWantedEnd = sortedStruct->typeWantedEnd;
 		nonSortedStruct->lastWriteTimeSearch = sortedStruct->lastWriteTimeSearch;
 		nonSortedStruct->lastWriteTimeSearchFlag = sortedStruct->lastWriteTimeSearchFlag;
+		nonSortedStruct->boolGetCRCvalues = sortedStruct->boolGetCRCvalues;
 	}
 	sortAddresses = 0;
 
@@ -187,34 +239,18 @@ int zcatInternalSort(long long *ifltab, const char *pathWithWild, zStructCatalog
 				}
 			}
 			if (sortedStruct) {
-				sortedStruct->numberPathnames = nonSortedStruct->numberPathnames;
-				sortedStruct->listSize = nonSortedStruct->numberPathnames;
-				sortedStruct->pathnameList = (char **)calloc((size_t)sortedStruct->listSize, WORD_SIZE);
-				if (!sortedStruct->pathnameList) {
+				if (!allocateSortedLists(sortedStruct, nonSortedStruct, numberPathnames)) {
+					zstructFree(nonSortedStruct);
+					free(sortAddresses);
 					return zerrorProcessing(ifltab, DSS_FUNCTION_zcatalog_ID,
-									zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, sortedStruct->listSize, 0,
-									zdssErrorSeverity.MEMORY_ERROR, "", "Allocating space for sortedStruct->pathnameList");
-				}
-				sortedStruct->allocated[zSTRUCT_pathname] = 1;
-				if (sortedStruct->boolIncludeDates) {
-					sortedStruct->startDates = (int *)calloc((size_t)sortedStruct->listSize, WORD_SIZE);
-					sortedStruct->endDates   = (int *)calloc((size_t)sortedStruct->listSize, WORD_SIZE);
-					if (!sortedStruct->startDates || !sortedStruct->endDates) {
-						return zerrorProcessing(ifltab, DSS_FUNCTION_zcatalog_ID,
-										zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, sortedStruct->listSize, 0,
-										zdssErrorSeverity.MEMORY_ERROR, "", "Allocating space for startDates / endDates");
-					}
+									zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, numberPathnames, 0,
+									zdssErrorSeverity.MEMORY_ERROR, "", "Allocating space for the sorted catalog");
 				}
 				icount = 0;
 				for (i=0; i<nonSortedStruct->numberPathnames; i++) {
 					for (j=0; j<numberPathnames; j++) {
 						if (sortAddresses[i] == nonSortedStruct->sortAddresses[j]) {
-							sortedStruct->pathnameList[icount] = nonSortedStruct->pathnameList[j];
-							nonSortedStruct->pathnameList[j] = 0;
-							if (sortedStruct->boolIncludeDates) {
-								sortedStruct->startDates[icount] = nonSortedStruct->startDates[j];
-								sortedStruct->endDates[icount]   = nonSortedStruct->endDates[j];
-							}
+							moveToSorted(sortedStruct, icount, nonSortedStruct, j);
 							icount++;
 							break;
 						}
@@ -332,23 +368,10 @@ int zcatInternalSort(long long *ifltab, const char *pathWithWild, zStructCatalog
 
 
 	if (sortedStruct) {
-		sortedStruct->numberPathnames = numberPathnames;
-		sortedStruct->listSize = numberPathnames;
-		sortedStruct->pathnameList = (char **)calloc((size_t)sortedStruct->listSize, WORD_SIZE);
-		if (!sortedStruct->pathnameList) {
-				return zerrorProcessing(ifltab, DSS_FUNCTION_zcatalog_ID,
-							zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, sortedStruct->listSize, 0,
-							zdssErrorSeverity.MEMORY_ERROR, "", "Allocating space for sortedStruct->pathnameList");
-		}
-		sortedStruct->allocated[zSTRUCT_pathname] = 1;
-		if ((sortedStruct->boolIncludeDates) && (nonSortedStruct->startDates)) {
-			sortedStruct->startDates = (int *)calloc((size_t)sortedStruct->listSize, WORD_SIZE);
-			sortedStruct->endDates   = (int *)calloc((size_t)sortedStruct->listSize, WORD_SIZE);
-			if (!sortedStruct->startDates || !sortedStruct->endDates) {
+		if (!allocateSortedLists(sortedStruct, nonSortedStruct, numberPathnames)) {
 				return zerrorProcessing(ifltab, DSS_FUNCTION_zcatalog_ID,
-								zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, sortedStruct->listSize, 0,
-								zdssErrorSeverity.MEMORY_ERROR, "", "Allocating space for startDates / endDates");
-			}
+						zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, numberPathnames, 0,
+						zdssErrorSeverity.MEMORY_ERROR, "", "Allocating space for the sorted catalog");
 		}
 		if (zgetVersion(ifltab) == 7) {
 			if ((numberPathnames == (int)fileHeader[zdssFileKeys.knumberRecords]) && (nonSortedStruct->sortAddresses)){
@@ -410,21 +433,7 @@ int zcatInternalSort(long long *ifltab, const char *pathWithWild, zStructCatalog
 				status = writeBytes(catalogHandle, "\n", (size_t)1);
 			}
 			if (sortedStruct) {
-				sortedStruct->pathnameList[i] = mallocAndCopy(nonSortedStruct->pathnameList[sequence]);
-				if (!sortedStruct->pathnameList[i]) {
-					return zerrorProcessing(ifltab, DSS_FUNCTION_zcatalog_ID,
-									zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, 0, 0,
-									zdssErrorSeverity.MEMORY_ERROR, "", "Allocating space for pathname");
-				}
-				if ((sortedStruct->startDates) && (sortedStruct->endDates) &&
-					(nonSortedStruct->startDates) && (nonSortedStruct->endDates)) {
-					sortedStruct->startDates[i] = nonSortedStruct->startDates[sequence];
-					sortedStruct->endDates[i]   = nonSortedStruct->endDates[sequence];
-				}
-				if (sortedStruct->attributes) {}
-				if (sortedStruct->sortAddresses && nonSortedStruct->sortAddresses) {
-					sortedStruct->sortAddresses[i] = nonSortedStruct->sortAddresses[sequence];
-				}
+				moveToSorted(sortedStruct, i, nonSortedStruct, sequence);
 			}
 		}
 	}
-- 
2.43.0


From c2fc0e914f48f0a8ba751001ea4ce260bbc45196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:44 +0000
Subject: [PATCH 050/103] fix: a sorted catalog of deleted, or of some, records
 used the stored order of all records, or stored its own as that

---
 .../heclib_c/src/Internal/zcatInternalSort.c   | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zcatInternalSort.c b/heclib/heclib_c/src/Internal/zcatInternalSort.c
index 0f6d10e..d33cfc0 100644
--- a/heclib/heclib_c/src/Internal/zcatInternalSort.c
+++ b/heclib/heclib_c/src/Internal/zcatInternalSort.c
@@ -140,6 +140,7 @@ int zcatInternalSort(long long *ifltab, const char *pathWithWild, zStructCatalog
 	int status;
 	int sortListStatus;
 	int icount;
+	int boolAllRecords;
 	long long* sortAddresses;
 	long long *fileHeader;
 	char cline[(MAX_PATHNAME_SIZE*2) + 2];   //  As zcatSortPath() writes them, plus the end of the line
@@ -169,12 +170,7 @@ int zcatInternalSort(long long *ifltab, const char *pathWithWild, zStructCatalog
 	}
 	else {
 		fileHeader = (long long *)ifltab[zdssKeys.kfileHeader];
-		if ((pathWithWild && ((int)strlen(pathWithWild) > 1)) || (boolCollection)) {
-			sortListStatus = 0;
-		}
-		else {
-			sortListStatus = (int)fileHeader[zdssFileKeys.kcatSortStatus];
-		}
+		sortListStatus = (int)fileHeader[zdssFileKeys.kcatSortStatus];
 	}
 
 	if (sortedStruct) {
@@ -188,6 +184,14 @@ int zcatInternalSort(long long *ifltab, const char *pathWithWild, zStructCatalog
 	}
 	sortAddresses = 0;
 
+	//  The stored list is that of all (valid) records; it is neither used nor set by a catalog of other ones.
+	boolAllRecords = 1;
+	if ((pathWithWild && ((int)strlen(pathWithWild) > 1)) || (boolCollection)) boolAllRecords = 0;
+	if (nonSortedStruct->statusWanted != REC_STATUS_VALID) boolAllRecords = 0;
+	if (nonSortedStruct->typeWantedStart != 0) boolAllRecords = 0;
+	if (nonSortedStruct->lastWriteTimeSearch > 0) boolAllRecords = 0;
+	if (!boolAllRecords) sortListStatus = 0;
+
 	//  In this function, we will treat 0, 2 and 3 the same - do a full resort
 	//  (status 2 is used by Java)
 	//  If status == 1, then we do not do a sort, but convert the nonSortedStruct into the sorted struct
@@ -374,7 +378,7 @@ int zcatInternalSort(long long *ifltab, const char *pathWithWild, zStructCatalog
 						zdssErrorSeverity.MEMORY_ERROR, "", "Allocating space for the sorted catalog");
 		}
 		if (zgetVersion(ifltab) == 7) {
-			if ((numberPathnames == (int)fileHeader[zdssFileKeys.knumberRecords]) && (nonSortedStruct->sortAddresses)){
+			if (boolAllRecords && (numberPathnames == (int)fileHeader[zdssFileKeys.knumberRecords]) && (nonSortedStruct->sortAddresses)){
 				sortedStruct->sortAddresses = (long long*)calloc((size_t)sortedStruct->listSize, LONG_SIZE);
 				if (!sortedStruct->sortAddresses) {
 					return zerrorProcessing(ifltab, DSS_FUNCTION_zcatalog_ID,
-- 
2.43.0


From 41da39bc49e985277f02ef66fa1cd5958b041f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:13 +0000
Subject: [PATCH 051/103] fix: a sorted catalog used the stored order after
 another process had changed the file, or when it could not be read

---
 .../heclib_c/src/Internal/zcatInternalSort.c  | 58 ++++++++++++++-----
 .../src/Internal/zgetCatalogSortAddresses.c   |  3 +
 2 files changed, 46 insertions(+), 15 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zcatInternalSort.c b/heclib/heclib_c/src/Internal/zcatInternalSort.c
index d33cfc0..1ade19f 100644
--- a/heclib/heclib_c/src/Internal/zcatInternalSort.c
+++ b/heclib/heclib_c/src/Internal/zcatInternalSort.c
@@ -55,6 +55,23 @@ static int allocateSortedLists(zStructCatalog *sortedStruct, zStructCatalog *non
 	return 1;
 }
 
+//  A new catalog struct, asking for the same records and attributes as the sorted struct (if there is one)
+static zStructCatalog *newNonSorted(zStructCatalog *sortedStruct)
+{
+	zStructCatalog *nonSortedStruct = zstructCatalogNew();
+
+	if (nonSortedStruct && sortedStruct) {
+		nonSortedStruct->boolIncludeDates = sortedStruct->boolIncludeDates;
+		nonSortedStruct->statusWanted = sortedStruct->statusWanted;
+		nonSortedStruct->typeWantedStart = sortedStruct->typeWantedStart;
+		nonSortedStruct->typeWantedEnd = sortedStruct->typeWantedEnd;
+		nonSortedStruct->lastWriteTimeSearch = sortedStruct->lastWriteTimeSearch;
+		nonSortedStruct->lastWriteTimeSearchFlag = sortedStruct->lastWriteTimeSearchFlag;
+		nonSortedStruct->boolGetCRCvalues = sortedStruct->boolGetCRCvalues;
+	}
+	return nonSortedStruct;
+}
+
 //  Moves the pathname at position "from" of the non sorted struct, with its attributes, to position "to" of the sorted one
 static void moveToSorted(zStructCatalog *sortedStruct, int to, zStructCatalog *nonSortedStruct, int from)
 {
@@ -150,7 +167,10 @@ int zcatInternalSort(long long *ifltab, const char *pathWithWild, zStructCatalog
 	FILE *sortedFP;
 
 
-	nonSortedStruct = zstructCatalogNew();
+	if (sortedStruct && (zgetVersion(ifltab) == 6)) {
+		sortedStruct->boolIncludeDates = 0;
+	}
+	nonSortedStruct = newNonSorted(sortedStruct);
 	if (!nonSortedStruct) {
 		return zerrorProcessing(ifltab, DSS_FUNCTION_zcatalog_ID,
 								zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, 0, 0,
@@ -164,24 +184,12 @@ int zcatInternalSort(long long *ifltab, const char *pathWithWild, zStructCatalog
 		//  3 = Significant changes and sort list should not be used - do a full re-sort.
 	if (zgetVersion(ifltab) == 6) {
 		sortListStatus = 0;
-		if (sortedStruct) {
-			sortedStruct->boolIncludeDates = 0;
-		}
 	}
 	else {
 		fileHeader = (long long *)ifltab[zdssKeys.kfileHeader];
 		sortListStatus = (int)fileHeader[zdssFileKeys.kcatSortStatus];
 	}
 
-	if (sortedStruct) {
-		nonSortedStruct->boolIncludeDates = sortedStruct->boolIncludeDates;
-		nonSortedStruct->statusWanted = sortedStruct->statusWanted;
-		nonSortedStruct->typeWantedStart = sortedStruct->typeWantedStart;
-		nonSortedStruct->typeWantedEnd = sortedStruct->typeWantedEnd;
-		nonSortedStruct->lastWriteTimeSearch = sortedStruct->lastWriteTimeSearch;
-		nonSortedStruct->lastWriteTimeSearchFlag = sortedStruct->lastWriteTimeSearchFlag;
-		nonSortedStruct->boolGetCRCvalues = sortedStruct->boolGetCRCvalues;
-	}
 	sortAddresses = 0;
 
 	//  The stored list is that of all (valid) records; it is neither used nor set by a catalog of other ones.
@@ -213,12 +221,32 @@ int zcatInternalSort(long long *ifltab, const char *pathWithWild, zStructCatalog
 									zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, numberPathnames, 0,
 									zdssErrorSeverity.MEMORY_ERROR, "", "Allocating space for sortAddresses");
 		}
-		status = zgetCatalogSortAddresses(ifltab, sortAddresses, numberPathnames);
-		if (status < 0) {
+		//  The header was just read; another process may have changed the file since the status was looked at above.
+		if ((int)fileHeader[zdssFileKeys.kcatSortStatus] == 1) {
+			status = zgetCatalogSortAddresses(ifltab, sortAddresses, numberPathnames);
+		}
+		else {
+			status = -1;
+		}
+		//  Be sure that it is the list of the records that we have
+		for (i=0; (status == 0) && (i<numberPathnames); i++) {
+			for (j=0; j<numberPathnames; j++) {
+				if (sortAddresses[i] == nonSortedStruct->sortAddresses[j]) break;
+			}
+			if (j == numberPathnames) status = -1;
+		}
+		if (status != 0) {
 			//  Very rare
 			sortListStatus = 0;
 			free(sortAddresses);
 			sortAddresses = 0;
+			zstructFree(nonSortedStruct);
+			nonSortedStruct = newNonSorted(sortedStruct);
+			if (!nonSortedStruct) {
+				return zerrorProcessing(ifltab, DSS_FUNCTION_zcatalog_ID,
+								zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, 0, 0,
+								zdssErrorSeverity.MEMORY_ERROR, "", "Allocating space for nonSortedStruct");
+			}
 		}
 		else {
 			if ((catalogHandle > 0) || (fortranUnit > 0)) {
diff --git a/heclib/heclib_c/src/Internal/zgetCatalogSortAddresses.c b/heclib/heclib_c/src/Internal/zgetCatalogSortAddresses.c
index 88db11a..99163e2 100644
--- a/heclib/heclib_c/src/Internal/zgetCatalogSortAddresses.c
+++ b/heclib/heclib_c/src/Internal/zgetCatalogSortAddresses.c
@@ -49,6 +49,9 @@ int zgetCatalogSortAddresses(long long* ifltab, long long* sortAddresses, int so
 
 	istat = zget(ifltab, (fileHeader[zdssFileKeys.kcatSortAddress] + 1), (int *)sortAddresses,
 		(int)fileHeader[zdssFileKeys.kcatSortNumber], 2);
+	if (istat != 0) {
+		return istat;
+	}
 
 	return 0;
 
-- 
2.43.0


From 9b628676b43ad1cb9eb4b4a5d443f061df908272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:47 +0000
Subject: [PATCH 052/103] fix: what changed by check-sum did not report new
 records, nor the type of any

---
 heclib/heclib_c/src/Public/zwhatChangedCompare.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/heclib/heclib_c/src/Public/zwhatChangedCompare.c b/heclib/heclib_c/src/Public/zwhatChangedCompare.c
index 10923b8..53d6f1c 100644
--- a/heclib/heclib_c/src/Public/zwhatChangedCompare.c
+++ b/heclib/heclib_c/src/Public/zwhatChangedCompare.c
@@ -127,8 +127,13 @@ int zwhatChangedCompare(long long *ifltab, zStructCatalog *catStructBefore, zStr
 					//  Found One.  The CRC value has changed, so the data set has too.
 					index[count++] = i;
 				}
+				break;
 			}
 		}
+		if (j == catStructBefore->numberPathnames) {
+			//  A new record
+			index[count++] = i;
+		}
 	}
 
 	if (count == 0) {
@@ -193,6 +198,7 @@ int zwhatChangedCompare(long long *ifltab, zStructCatalog *catStructBefore, zStr
 	for (i=0; i<count; i++) {
 		j = index[i];
 		catStructChanged->pathnameList[i] = mallocAndCopy(catStruct->pathnameList[j]);
+		catStructChanged->recordType[i] = catStruct->recordType[j];
 		catStructChanged->pathnameHash[i] = catStruct->pathnameHash[j];
 		catStructChanged->lastWriteTimeRecord[i] = catStruct->lastWriteTimeRecord[j];
 		catStructChanged->crcValues[i] = catStruct->crcValues[j];
-- 
2.43.0


From 98db9fc1205aa694a38effd36d908c527172d616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:21 +0000
Subject: [PATCH 053/103] fix: what changed by check-sum compared records of
 equal pathname hash with each other

---
 heclib/heclib_c/src/Public/zwhatChangedCompare.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Public/zwhatChangedCompare.c b/heclib/heclib_c/src/Public/zwhatChangedCompare.c
index 53d6f1c..9c36886 100644
--- a/heclib/heclib_c/src/Public/zwhatChangedCompare.c
+++ b/heclib/heclib_c/src/Public/zwhatChangedCompare.c
@@ -1,4 +1,5 @@
 #include <stdlib.h>
+#include <string.h>
 
 #include "zdssKeys.h"
 #include "hecdss7.h"
@@ -121,7 +122,8 @@ int zwhatChangedCompare(long long *ifltab, zStructCatalog *catStructBefore, zStr
 	count = 0;
 	for (i=0; i<catStruct->numberPathnames; i++) {
 		for (j=0; j<catStructBefore->numberPathnames; j++) {
-			if (catStruct->pathnameHash[i] == catStructBefore->pathnameHash[j]) {
+			if ((catStruct->pathnameHash[i] == catStructBefore->pathnameHash[j]) &&
+				zstringCompare(catStruct->pathnameList[i], catStructBefore->pathnameList[j], strlen(catStruct->pathnameList[i]) + 1)) {
 				//  We have an updated record.  Has the data changed?
 				if (catStruct->crcValues[i] != catStructBefore->crcValues[j]) {
 					//  Found One.  The CRC value has changed, so the data set has too.
-- 
2.43.0


From 577dd5715b37925c66081c2427970befabc30ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:06 +0000
Subject: [PATCH 054/103] fix: number the days of the years up to 4
 consecutively

yearMonthDayToJulian counted a leap day too many for every year before the
year 5, so that 31Dec0004 and 01Jan0005 were given the same day number.
---
 .../Utilities/DateTime/yearMonthDayToJulian.c | 23 ++++++-------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/heclib/heclib_c/src/Utilities/DateTime/yearMonthDayToJulian.c b/heclib/heclib_c/src/Utilities/DateTime/yearMonthDayToJulian.c
index e7a1f02..f6d8ad4 100644
--- a/heclib/heclib_c/src/Utilities/DateTime/yearMonthDayToJulian.c
+++ b/heclib/heclib_c/src/Utilities/DateTime/yearMonthDayToJulian.c
@@ -64,33 +64,24 @@ int yearMonthDayToJulian (int year, int month, int day)
 		 }
 	}
 
-	if (year > 4) {
+	if (year > 0) {
+		//  Leap days in the years 1 through year - 1
 		intYear_1 = year - 1;
 		numberOfLeapDays = (intYear_1 / 4) + (intYear_1 / 400) - (intYear_1 / 100);
 	}
-	else if (year > 0) {
-		numberOfLeapDays = 1;
-	}
 	else {
-		intYear_1 = year + 1;
-		numberOfLeapDays = (intYear_1 / 4) + (intYear_1 / 400) - (intYear_1 / 100);
+		//  Leap days in the years year through 0 (which is a leap year)
+		numberOfLeapDays = (year / 4) + (year / 400) - (year / 100) - 1;
 	}
 	
 	
 	//  Check to see if it's a leap year
 	leapCheck = 0;
 	if (isLeapYear(year)) {
-		if (year >= 0) {
-			//  Need to account for leap day
-			if (month > 2) {
-				leapCheck = 1;
-			}
+		//  Need to account for leap day
+		if (month > 2) {
+			leapCheck = 1;
 		}
-		else {
-			if (month < 3) {
-				leapCheck = -1;
-			}
-		}			
 	}
 	
 	if (month < 1 || month > 12) {
-- 
2.43.0


From 6c5579de7b6cd151066f3e387bb150d5c0703f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:06 +0000
Subject: [PATCH 055/103] fix: day of the week of days before 1900

dayOfWeek took the remainder of a negative day number, which gave days of
the week of -5 to 0; the offsets of weekly data before 1900 were wrong, too.
---
 heclib/heclib_c/src/Utilities/DateTime/dayOfWeek.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Utilities/DateTime/dayOfWeek.c b/heclib/heclib_c/src/Utilities/DateTime/dayOfWeek.c
index 6aa505f..c82ff4f 100644
--- a/heclib/heclib_c/src/Utilities/DateTime/dayOfWeek.c
+++ b/heclib/heclib_c/src/Utilities/DateTime/dayOfWeek.c
@@ -27,7 +27,12 @@ int dayOfWeek(int julian)
 {
 	int iday;
 
-	iday = (julian % 7) + 1;
+	iday = julian % 7;
+	if (iday < 0) {
+		//  Before 31Dec1899
+		iday += 7;
+	}
+	iday++;
 	return iday;
 }
 
-- 
2.43.0


From 75259cd5574c10ae44a904231dda918eeb8cd2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:44 +0000
Subject: [PATCH 056/103] fix: two-digit year of the year 100 in numeric dates

---
 heclib/heclib_c/src/Utilities/DateTime/yearMonthDayToDate.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Utilities/DateTime/yearMonthDayToDate.c b/heclib/heclib_c/src/Utilities/DateTime/yearMonthDayToDate.c
index 18c3a28..8da03cc 100644
--- a/heclib/heclib_c/src/Utilities/DateTime/yearMonthDayToDate.c
+++ b/heclib/heclib_c/src/Utilities/DateTime/yearMonthDayToDate.c
@@ -112,7 +112,7 @@ int yearMonthDayToDate(int year, int month, int day, int style, char *dateString
 			style += 100;
 		}
 		else {
-			if (year > 100)
+			if (year >= 100)
 				year = year % 100;
 			intTo2char(year, charYear);
 		}
-- 
2.43.0


From 4ed150c86c9218c8a24549c64538027593862b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:53 +0000
Subject: [PATCH 057/103] fix: incrementing to the midnight that ends 30Dec1899

incrementTime left the result at day 0, second 0, which cleanTime takes for
an undefined time instead of moving it to the end of the day before.
---
 heclib/heclib_c/src/Utilities/DateTime/incrementTime.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Utilities/DateTime/incrementTime.c b/heclib/heclib_c/src/Utilities/DateTime/incrementTime.c
index 7824a9f..31c058a 100644
--- a/heclib/heclib_c/src/Utilities/DateTime/incrementTime.c
+++ b/heclib/heclib_c/src/Utilities/DateTime/incrementTime.c
@@ -123,7 +123,7 @@ int incrementTime(int intervalSeconds, int numberPeriods,
 	if (intervalSeconds < SECS_IN_TRI_MONTH) {
 		// Do computations in 64 bit math in case we end up with very large numbers
 		lseconds = ((long long)intervalSeconds * (long long)numberPeriods) + (long long)*secondsEnd;
-		if ((lseconds < -SECS_IN_1_DAY) || (lseconds > SECS_IN_1_DAY)) {
+		if ((lseconds < 1) || (lseconds > SECS_IN_1_DAY)) {
 			day = (int)(lseconds / SECS_IN_1_DAY);
 			iremain = (int)(lseconds - ((long long)day * SECS_IN_1_DAY));
 			if (iremain < 1) {
-- 
2.43.0


From 72bee67fcde58d0087410559726dab74241987db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:53 +0000
Subject: [PATCH 058/103] fix: refuse numeric dates with an impossible month or
 day

dateToYearMonthDay accepted such dates as 13/1/1985 or 1985-01-99.
---
 heclib/heclib_c/src/Utilities/DateTime/dateToYearMonthDay.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/heclib/heclib_c/src/Utilities/DateTime/dateToYearMonthDay.c b/heclib/heclib_c/src/Utilities/DateTime/dateToYearMonthDay.c
index 5d8197e..2dd2365 100644
--- a/heclib/heclib_c/src/Utilities/DateTime/dateToYearMonthDay.c
+++ b/heclib/heclib_c/src/Utilities/DateTime/dateToYearMonthDay.c
@@ -254,6 +254,10 @@ int dateToYearMonthDay(const char *dateString, int *year, int *month, int *day)
 			return STATUS_NOT_OKAY;
 		}
 	}
+	//  Invalid month or day?  (A day of zero is okay - no day given)
+	if ((imonth < 1) || (imonth > 12) || (iday < 0) || (iday > 31)) {
+		return STATUS_NOT_OKAY;
+	}
 	//
 	// A sucessful Date Format was matched, set errorCode to zero...
 	//
-- 
2.43.0


From e24b81ff92322ea5ba11cc4fec2a4caf7783c9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:52 +0000
Subject: [PATCH 059/103] fix: number of yearly periods between different
 months

numberPeriods added the difference in months to the difference in years, so
that Jun2000 to Dec2001 was seven years.
---
 heclib/heclib_c/src/Utilities/DateTime/numberPeriods.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/heclib/heclib_c/src/Utilities/DateTime/numberPeriods.c b/heclib/heclib_c/src/Utilities/DateTime/numberPeriods.c
index 8e39f0d..ff677fc 100644
--- a/heclib/heclib_c/src/Utilities/DateTime/numberPeriods.c
+++ b/heclib/heclib_c/src/Utilities/DateTime/numberPeriods.c
@@ -162,8 +162,8 @@ int numberPeriods(int intervalSeconds,
 		else if ((intervalMinutes > 520000) && (intervalMinutes < 530000)) {
 			//  Yearly
 			numberPeriods = (yearEnd - yearStart) +
-							((monthEnd - monthStart) +
-							((dayEnd - dayStart) / 28) / 12);
+							(((monthEnd - monthStart) +
+							((dayEnd - dayStart) / 28)) / 12);
 		}
 		else {
 			//  Unknown - just do straight day computation 
-- 
2.43.0


From 7c478ae3d936eec9272d901e43b6f8a6eefbce16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:04 +0000
Subject: [PATCH 060/103] fix: the quality given to the public store functions
 was not stored

---
 heclib/hecdss/hecdss.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/heclib/hecdss/hecdss.c b/heclib/hecdss/hecdss.c
index ea4c44d..1bbb2b1 100644
--- a/heclib/hecdss/hecdss.c
+++ b/heclib/hecdss/hecdss.c
@@ -390,12 +390,15 @@ HECDSS_API int hec_dss_tsStoreRegular(dss_file* dss, const char* pathname,
 
     tss = zstructTsNewRegFloats(pathname, values, valueArraySize, startDate, startTime, units, type);
     tss->allocated[zSTRUCT_TS_floatValues];// zstructFree will free float array
-    if (qualityArraySize > 0 && qualityArraySize == valueArraySize)
-      tss->quality = qualityArray;
   }
   else {
     tss = zstructTsNewRegDoubles(pathname, valueArray, valueArraySize, startDate, startTime, units, type);
   }
+  if (qualityArraySize > 0 && qualityArraySize == valueArraySize) {
+    tss->quality = qualityArray;
+    tss->qualityArraySize = qualityArraySize;
+    tss->qualityElementSize = 1;
+  }
   tss->boolPattern = isTsPattern(pathname);
 
   tss->timeZoneName = mallocAndCopy(timeZoneName);
@@ -434,6 +437,7 @@ HECDSS_API int hec_dss_tsStoreIregular(dss_file* dss, const char* pathname,
     // TO DO.. quality can be multi-dimensional (Is that used?)
     tss->quality = qualityArray;
     tss->qualityArraySize = qualityArraySize;
+    tss->qualityElementSize = 1;
   }
     
   tss->boolPattern = isTsPattern(pathname);
-- 
2.43.0


From 8a33fe70d4ebce95d11c2597832d523fd7f2528b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:04 +0000
Subject: [PATCH 061/103] fix: asking for the quality of a series without any
 followed a null pointer

---
 heclib/hecdss/hecdss.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heclib/hecdss/hecdss.c b/heclib/hecdss/hecdss.c
index 1bbb2b1..62e4ba8 100644
--- a/heclib/hecdss/hecdss.c
+++ b/heclib/hecdss/hecdss.c
@@ -362,7 +362,7 @@ HECDSS_API int hec_dss_tsRetrieve(dss_file* dss, const char *pathname,
             }
             valueArray[i] = tss->doubleValues[i];
             if (qualityWidth > 0) // TO DO.. quality can have multiple columns
-               quality[i] = tss->quality[i];
+               quality[i] = (tss->quality && tss->qualityElementSize > 0) ? tss->quality[i * tss->qualityElementSize] : 0;
 
         }
     }
-- 
2.43.0


From 8b4814cb6188efc5a64afa3de989e197d51ca0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:04 +0000
Subject: [PATCH 062/103] fix: empty dates did not retrieve all data, unlike
 null ones

---
 heclib/hecdss/hecdss.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/heclib/hecdss/hecdss.c b/heclib/hecdss/hecdss.c
index 62e4ba8..ce460ca 100644
--- a/heclib/hecdss/hecdss.c
+++ b/heclib/hecdss/hecdss.c
@@ -321,10 +321,10 @@ HECDSS_API int hec_dss_tsRetrieve(dss_file* dss, const char *pathname,
     tss->boolPattern = isTsPattern(pathname);
     // if no dates/times are given retrieve all data.
     if (  
-         (startDate == NULL || startDate == "\0")
-      && (startTime == NULL || startTime == "\0")
-      && (endDate == NULL   || endDate == "\0")
-      && (endTime == NULL   || endTime == "\0")
+         (startDate == NULL || startDate[0] == '\0')
+      && (startTime == NULL || startTime[0] == '\0')
+      && (endDate == NULL   || endDate[0] == '\0')
+      && (endTime == NULL   || endTime[0] == '\0')
       && ! tss->boolPattern
          ) 
     {
-- 
2.43.0


From d5ff6181d2f2bb2ae9c248c580966fd2c77a4fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:13 +0000
Subject: [PATCH 063/103] fix: public retrieve functions left text buffers
 unset where the record has no text

---
 heclib/hecdss/hecdss.c | 91 +++++++++++++-----------------------------
 1 file changed, 28 insertions(+), 63 deletions(-)

diff --git a/heclib/hecdss/hecdss.c b/heclib/hecdss/hecdss.c
index ce460ca..50eaaf9 100644
--- a/heclib/hecdss/hecdss.c
+++ b/heclib/hecdss/hecdss.c
@@ -132,6 +132,13 @@ void hec_dss_array_copy_int(int* destination, const long destinationSize,
     destination[i] = source[i];
   }
 }
+// copies as much of a string as fits; the string is empty when the record has none
+static void hec_dss_copyString(char* destination, const int destinationSize, const char* source) {
+  if (destination != NULL && destinationSize > 0) {
+    stringCopy(destination, destinationSize, source, source ? strlen(source) : 0);
+  }
+}
+
 HECDSS_API int hec_dss_open(const char* filename, dss_file** dss)
 {
     dss_file* f = (dss_file*)malloc(sizeof(dss_file));
@@ -292,12 +299,8 @@ HECDSS_API int hec_dss_tsRetrieveInfo(dss_file* pdss, const char* pathname,char*
       int intervalType = ztsProcessTimes(pdss->ifltab, tss, 0);
       status = ztsInternalHeaderUnpack(tss, transfer->internalHeader, transfer->internalHeaderNumber);
 
-      if (tss->units != NULL) {
-        stringCopy(units, unitsLength, tss->units, strlen(tss->units));
-      }
-      if (tss->type != NULL) {
-        stringCopy(type, typeLength, tss->type, strlen(tss->type));
-      }
+      hec_dss_copyString(units, unitsLength, tss->units);
+      hec_dss_copyString(type, typeLength, tss->type);
     }
     zstructFree(tss);
     zstructFree(transfer);
@@ -343,15 +346,9 @@ HECDSS_API int hec_dss_tsRetrieve(dss_file* dss, const char *pathname,
         *julianBaseDate = tss->julianBaseDate;
         *timeGranularitySeconds = tss->timeGranularitySeconds;
         
-        if (tss->units != NULL) {
-          stringCopy(units, unitsLength, tss->units, strlen(tss->units));
-        }
-        if (tss->type != NULL) {
-          stringCopy(type, typeLength, tss->type, strlen(tss->type));
-        }
-        if (tss->timeZoneName != NULL) {
-          stringCopy(timeZoneName, timeZoneNameLength, tss->timeZoneName, strlen(tss->timeZoneName));
-        }
+        hec_dss_copyString(units, unitsLength, tss->units);
+        hec_dss_copyString(type, typeLength, tss->type);
+        hec_dss_copyString(timeZoneName, timeZoneNameLength, tss->timeZoneName);
 
         int size = MIN(tss->numberValues, arraySize);
         size = MAX(0, size);
@@ -472,13 +469,9 @@ HECDSS_API int hec_dss_locationRetrieve(dss_file* dss, const char* fullPath,
     *horizontalUnits = loc->horizontalUnits;
     *horizontalDatum = loc->horizontalDatum;
 
-    if (loc->timeZoneName != NULL) {
-      stringCopy(timeZoneName, timeZoneNameLength, loc->timeZoneName, strlen(loc->timeZoneName));
-    }
+    hec_dss_copyString(timeZoneName, timeZoneNameLength, loc->timeZoneName);
 
-    if (loc->supplemental != NULL) {
-      stringCopy(supplemental, supplementalLength, loc->supplemental, strlen(loc->supplemental));
-    }
+    hec_dss_copyString(supplemental, supplementalLength, loc->supplemental);
   }
   zstructFree(loc);
   return status;
@@ -538,19 +531,11 @@ HECDSS_API int hec_dss_pdRetrieveInfo(dss_file* dss, const char* pathname,
   *numberOrdinates = pds->numberOrdinates;
   *numberCurves = pds->numberCurves;
 
-  if (pds->unitsIndependent != NULL) {
-    stringCopy(unitsIndependent, unitsIndependentLength, pds->unitsIndependent, strlen(pds->unitsIndependent));
-  }
-  if (pds->unitsDependent != NULL) {
-    stringCopy(unitsDependent, unitsDependentLength, pds->unitsDependent, strlen(pds->unitsDependent));
-  }
-  if (pds->typeIndependent != NULL) {
-    stringCopy(typeIndependent, typeIndependentLength, pds->typeIndependent, strlen(pds->typeIndependent));
-  }
+  hec_dss_copyString(unitsIndependent, unitsIndependentLength, pds->unitsIndependent);
+  hec_dss_copyString(unitsDependent, unitsDependentLength, pds->unitsDependent);
+  hec_dss_copyString(typeIndependent, typeIndependentLength, pds->typeIndependent);
 
-  if (pds->typeDependent != NULL) {
-    stringCopy(typeDependent, typeDependentLength, pds->typeDependent, strlen(pds->typeDependent));
-  }
+  hec_dss_copyString(typeDependent, typeDependentLength, pds->typeDependent);
   if (pds->labels)
     *labelsLength = pds->labelsLength;
 
@@ -617,21 +602,11 @@ HECDSS_API int hec_dss_pdRetrieve(dss_file* dss, const char* pathname,
     // *yprecision = pds->yprecision;
 
 
-      if (pds->unitsIndependent != NULL) {
-        stringCopy(unitsIndependent, unitsIndependentLength, pds->unitsIndependent, strlen(pds->unitsIndependent));
-      }
-      if (pds->unitsDependent != NULL) {
-        stringCopy(unitsDependent, unitsDependentLength, pds->unitsDependent, strlen(pds->unitsDependent));
-      }
-      if (pds->typeIndependent != NULL) {
-        stringCopy(typeIndependent, typeIndependentLength, pds->typeIndependent, strlen(pds->typeIndependent));
-      }
-      if (pds->typeDependent != NULL) {
-        stringCopy(typeDependent, typeDependentLength, pds->typeDependent, strlen(pds->typeDependent));
-      }
-      if (pds->timeZoneName != NULL) {
-        stringCopy(timeZoneName, timeZoneNameLength, pds->timeZoneName, strlen(pds->timeZoneName));
-      }
+      hec_dss_copyString(unitsIndependent, unitsIndependentLength, pds->unitsIndependent);
+      hec_dss_copyString(unitsDependent, unitsDependentLength, pds->unitsDependent);
+      hec_dss_copyString(typeIndependent, typeIndependentLength, pds->typeIndependent);
+      hec_dss_copyString(typeDependent, typeDependentLength, pds->typeDependent);
+      hec_dss_copyString(timeZoneName, timeZoneNameLength, pds->timeZoneName);
     if (pds->labels) {
       int size = pds->labelsLength > labelsLength ? labelsLength :pds->labelsLength;
       for (int i = 0; i < size; i++)
@@ -720,21 +695,11 @@ HECDSS_API int hec_dss_gridRetrieve(dss_file* dss, const char* pathname, int boo
     *timeZoneRawOffset = gridStruct->_timeZoneRawOffset;
     *isInterval = gridStruct->_isInterval;
     *isTimeStamped = gridStruct->_isTimeStamped;
-    if (gridStruct->_dataUnits != NULL) {
-      stringCopy(dataUnits, dataUnitsLength, gridStruct->_dataUnits, strlen(gridStruct->_dataUnits));
-    }
-    if (gridStruct->_dataSource != NULL) {
-      stringCopy(dataSource, dataSourceLength, gridStruct->_dataSource, strlen(gridStruct->_dataSource));
-    }
-    if (gridStruct->_srsName != NULL) {
-      stringCopy(srsName, srsNameLength, gridStruct->_srsName, strlen(gridStruct->_srsName));
-    }
-    if (gridStruct->_srsDefinition != NULL) {
-      stringCopy(srsDefinition, srsDefinitionLength, gridStruct->_srsDefinition, strlen(gridStruct->_srsDefinition));
-    }
-    if (gridStruct->_timeZoneID != NULL) {
-      stringCopy(timeZoneID, timeZoneIDLength, gridStruct->_timeZoneID, strlen(gridStruct->_timeZoneID));
-    }
+    hec_dss_copyString(dataUnits, dataUnitsLength, gridStruct->_dataUnits);
+    hec_dss_copyString(dataSource, dataSourceLength, gridStruct->_dataSource);
+    hec_dss_copyString(srsName, srsNameLength, gridStruct->_srsName);
+    hec_dss_copyString(srsDefinition, srsDefinitionLength, gridStruct->_srsDefinition);
+    hec_dss_copyString(timeZoneID, timeZoneIDLength, gridStruct->_timeZoneID);
     *cellSize = gridStruct->_cellSize;
     *xCoordOfGridCellZero = gridStruct->_xCoordOfGridCellZero;
     *yCoordOfGridCellZero = gridStruct->_yCoordOfGridCellZero;
-- 
2.43.0


From ccd26b06d2161a8e3f60ecbf3d069ca483b843d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:05 +0000
Subject: [PATCH 064/103] fix: long units, types and time zones of series
 overran the buffer on reading, or left the header unset

---
 .../src/Internal/ztsInternalHeaderPack.c      | 20 +++++++++----------
 .../src/Internal/ztsInternalHeaderUnpack.c    |  8 ++++----
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/ztsInternalHeaderPack.c b/heclib/heclib_c/src/Internal/ztsInternalHeaderPack.c
index 4a44893..77ed775 100644
--- a/heclib/heclib_c/src/Internal/ztsInternalHeaderPack.c
+++ b/heclib/heclib_c/src/Internal/ztsInternalHeaderPack.c
@@ -63,14 +63,14 @@
 
 int ztsInternalHeaderPack(zStructTimeSeries *tss, int *internalHeader)
 {
-	char carray[300];
+	char carray[(INT_HEAD_SIZE - INT_HEAD_units - 1) * 4];
 	int ipos;
 	int numberInts;
 	int carraySize;
 
 
 	//  Combine the character items into a single char array
-	carraySize = sizeof(carray) - 2;   // Make a little less to be safe
+	carraySize = sizeof(carray) - 8;   // Make a little less to be safe
 	ipos = 0;
 
 	if (tss->profileDepthsNumber == 0) {
@@ -79,18 +79,18 @@ int ztsInternalHeaderPack(zStructTimeSeries *tss, int *internalHeader)
 	else {
 		//  Profile 
 		appendStringToHeader(tss->unitsProfileDepths, carray, &ipos, carraySize);
-		appendStringToHeader(tss->unitsProfileValues, carray, &ipos, carraySize);
+		if (ipos < carraySize) appendStringToHeader(tss->unitsProfileValues, carray, &ipos, carraySize);
 	}
 
-	if (ipos >= carraySize) return numberIntsInBytes(carraySize);
+	if (ipos < carraySize) appendStringToHeader(tss->type, carray, &ipos, carraySize);
 
-	appendStringToHeader(tss->type, carray, &ipos, carraySize);
-	
-	if (ipos >= carraySize) return numberIntsInBytes(carraySize);
+	if (ipos < carraySize) appendStringToHeader(tss->timeZoneName, carray, &ipos, carraySize);
 
-	appendStringToHeader(tss->timeZoneName, carray, &ipos, carraySize);
-	
-	if (ipos >= carraySize) return numberIntsInBytes(carraySize);
+	if (ipos > carraySize) {
+		//  Too long - keep what fits
+		carray[carraySize - 1] = '\0';
+		ipos = carraySize;
+	}
 
 	//  Blank fill int word 17 (INT_HEAD_units) for compatibility with big endian machines
 	charInt("    ", &internalHeader[INT_HEAD_units], 4, 4, 1, 0, isOdd(INT_HEAD_units));
diff --git a/heclib/heclib_c/src/Internal/ztsInternalHeaderUnpack.c b/heclib/heclib_c/src/Internal/ztsInternalHeaderUnpack.c
index 47e2009..50132b1 100644
--- a/heclib/heclib_c/src/Internal/ztsInternalHeaderUnpack.c
+++ b/heclib/heclib_c/src/Internal/ztsInternalHeaderUnpack.c
@@ -68,10 +68,10 @@
 int mallocAndAssignString(char** destination, char* source, int* ipos, zStructTimeSeries* tss, int allocatedPosition);
 
 
-#define CHAR_ARRAY_SIZE 200
+#define CHAR_ARRAY_SIZE (INT_HEAD_SIZE * 4)
 int ztsInternalHeaderUnpack(zStructTimeSeries *tss, int *internalHeader, int internalHeaderNumber)
 {
-	char carray[CHAR_ARRAY_SIZE];
+	char carray[CHAR_ARRAY_SIZE + 8] = {0};  //  The end is always zero, so that every string is terminated
 	int ipos;
 	int len;
 
@@ -100,12 +100,12 @@ int ztsInternalHeaderUnpack(zStructTimeSeries *tss, int *internalHeader, int int
 	if (!unitsHavePadding(internalHeader,INT_HEAD_units)) {
 		//  Depreciated
 		len *= 4;
-		charInt(&internalHeader[INT_HEAD_units], carray, len, sizeof(carray), 0, 0, 0);		
+		charInt(&internalHeader[INT_HEAD_units], carray, len, CHAR_ARRAY_SIZE, 0, 0, 0);		
 	}
 	else {
 		len--;
 		len *= 4;
-		charLong(&internalHeader[INT_HEAD_units + 1], carray, len, sizeof(carray), 0, -1);
+		charLong(&internalHeader[INT_HEAD_units + 1], carray, len, CHAR_ARRAY_SIZE, 0, -1);
 	}
 
 	ipos = 0;
-- 
2.43.0


From 19ac07bf2f3f7827dd93c613a2d245b5a958a6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:20 +0000
Subject: [PATCH 065/103] fix: long units, types and time zones of paired data
 left the header unset or overran buffers

---
 heclib/heclib_c/src/Internal/zpdUnitsToHead.c | 34 ++++++++-----------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zpdUnitsToHead.c b/heclib/heclib_c/src/Internal/zpdUnitsToHead.c
index d1e258d..6631ca9 100644
--- a/heclib/heclib_c/src/Internal/zpdUnitsToHead.c
+++ b/heclib/heclib_c/src/Internal/zpdUnitsToHead.c
@@ -49,7 +49,7 @@
 
 int zpdUnitsToHead(zStructPairedData *pds, int *internalHeader, int internalHeaderArraySize )
 {
-	char carray[400];
+	char carray[(INT_HEAD_SIZE - INT_HEAD_pdUnits - 1) * 4];
 	int ipos;
 	int len;
 	char blankString[8];
@@ -58,23 +58,19 @@ int zpdUnitsToHead(zStructPairedData *pds, int *internalHeader, int internalHead
 
 	stringFill(blankString, ' ', sizeof(blankString) - 1);
 	blankString[7] = '\0';
-	carraySize = sizeof(carray) - 2;   // Make a little less to be safe
+	carraySize = sizeof(carray) - 8;   // Make a little less to be safe
 	ipos = 0;
 	appendStringToHeader(pds->unitsIndependent, carray,&ipos,carraySize);
-	if (ipos >= carraySize) return numberIntsInBytes(carraySize);
-	
-	appendStringToHeader(pds->typeIndependent, carray,&ipos,carraySize);
-	if (ipos >= carraySize) return numberIntsInBytes(carraySize);
-
-	appendStringToHeader(pds->unitsDependent, carray, &ipos, carraySize);
-	if (ipos >= carraySize) return numberIntsInBytes(carraySize);
-
-	appendStringToHeader(pds->typeDependent, carray, &ipos, carraySize);
-	if (ipos >= carraySize) return numberIntsInBytes(carraySize);
-
-	appendStringToHeader(pds->timeZoneName, carray, &ipos, carraySize);
-	if (ipos >= carraySize) return numberIntsInBytes(carraySize);
-
+	if (ipos < carraySize) appendStringToHeader(pds->typeIndependent, carray,&ipos,carraySize);
+	if (ipos < carraySize) appendStringToHeader(pds->unitsDependent, carray, &ipos, carraySize);
+	if (ipos < carraySize) appendStringToHeader(pds->typeDependent, carray, &ipos, carraySize);
+	if (ipos < carraySize) appendStringToHeader(pds->timeZoneName, carray, &ipos, carraySize);
+
+	if (ipos > carraySize) {
+		//  Too long - keep what fits
+		carray[carraySize - 1] = '\0';
+		ipos = carraySize;
+	}
 
 	//  Make sure we don't overrun the int array
 	internalHeaderCharSize = (internalHeaderArraySize - INT_HEAD_pdUnits) * 4;
@@ -92,7 +88,7 @@ int zpdUnitsToHead(zStructPairedData *pds, int *internalHeader, int internalHead
 
 int zpdHeadToUnits(zStructPairedData *pds, int *internalHeader, int internalHeaderNumber)
 {
-	char carray[400];
+	char carray[(INT_HEAD_SIZE * 4) + 8] = {0};  //  The end is always zero, so that every string is terminated
 	int ipos;
 	int len;
 	
@@ -109,12 +105,12 @@ int zpdHeadToUnits(zStructPairedData *pds, int *internalHeader, int internalHead
 	if (!unitsHavePadding(internalHeader, INT_HEAD_pdUnits)) {
 		//  Depreciated
 		len *= 4;
-		charInt(&internalHeader[INT_HEAD_pdUnits], carray, len, sizeof(carray), 0, 0, 1);
+		charInt(&internalHeader[INT_HEAD_pdUnits], carray, len, INT_HEAD_SIZE * 4, 0, 0, 1);
 	}
 	else {
 		len--;
 		len *= 4;
-		charLong(&internalHeader[INT_HEAD_pdUnits + 1], carray, len, sizeof(carray), 0, -1);
+		charLong(&internalHeader[INT_HEAD_pdUnits + 1], carray, len, INT_HEAD_SIZE * 4, 0, -1);
 	}
 
 
-- 
2.43.0


From e67204525e405e0b0314b6e72f9795588a1c45a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:20 +0000
Subject: [PATCH 066/103] fix: the length of the labels of paired data without
 labels was not told

---
 heclib/hecdss/hecdss.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/heclib/hecdss/hecdss.c b/heclib/hecdss/hecdss.c
index 50eaaf9..4f0892c 100644
--- a/heclib/hecdss/hecdss.c
+++ b/heclib/hecdss/hecdss.c
@@ -536,8 +536,7 @@ HECDSS_API int hec_dss_pdRetrieveInfo(dss_file* dss, const char* pathname,
   hec_dss_copyString(typeIndependent, typeIndependentLength, pds->typeIndependent);
 
   hec_dss_copyString(typeDependent, typeDependentLength, pds->typeDependent);
-  if (pds->labels)
-    *labelsLength = pds->labelsLength;
+  *labelsLength = pds->labels ? pds->labelsLength : 0;
 
   zstructFree(pds);
   return status;
-- 
2.43.0


From 28bd5ed7e9366b855ceb39c68cb0708db49c539e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:05 +0000
Subject: [PATCH 067/103] fix: texts stored through the public interface lost
 trailing blanks, or read past their end; retrieved, were not terminated

---
 heclib/hecdss/hecdss.c | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/heclib/hecdss/hecdss.c b/heclib/hecdss/hecdss.c
index 4f0892c..254ed6d 100644
--- a/heclib/hecdss/hecdss.c
+++ b/heclib/hecdss/hecdss.c
@@ -901,9 +901,20 @@ HECDSS_API int hec_dss_textStore(dss_file* dss, const char* pathname, const char
 
   zStructText* txt = zstructTextNew(pathname);
 
-  txt->textString = mallocAndCopy(text);
+  // exactly the text given: no more than there is, should the length be greater
+  int numberChars = 0;
+  while (numberChars < length && text[numberChars] != '\0') {
+    numberChars++;
+  }
+  txt->textString = (char*)malloc((size_t)numberChars + 1);
+  if (!txt->textString) {
+    zstructFree(txt);
+    return -1;
+  }
+  memcpy(txt->textString, text, (size_t)numberChars);
+  txt->textString[numberChars] = '\0';
   txt->allocated[zSTRUCT_TX_textString] = 1;
-  txt->numberTextChars = length;
+  txt->numberTextChars = numberChars;
 
   int status = ztextStore(dss->ifltab, txt);
 
@@ -920,7 +931,13 @@ HECDSS_API int hec_dss_textRetrieve(dss_file* dss, const char* pathname, char* b
     if (txt->numberTextChars > bufferLength) {
       status = HEC_DSS_BUFFER_TOO_SMALL;
     }
-    strncpy(buffer, txt->textString, MIN(bufferLength, txt->numberTextChars));
+    int numberChars = txt->textString ? MIN(bufferLength, txt->numberTextChars) : 0;
+    if (numberChars > 0) {
+      memcpy(buffer, txt->textString, (size_t)numberChars);
+    }
+    if (numberChars < bufferLength) {
+      buffer[MAX(numberChars, 0)] = '\0';
+    }
   }
 
   zstructFree(txt);
-- 
2.43.0


From 9a84198589f43bd6da19c11f06e04e4279518e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:14 +0000
Subject: [PATCH 068/103] fix: asking the sizes of a pathname that is no time
 series did not end

---
 heclib/hecdss/hecdss.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/heclib/hecdss/hecdss.c b/heclib/hecdss/hecdss.c
index 254ed6d..424b970 100644
--- a/heclib/hecdss/hecdss.c
+++ b/heclib/hecdss/hecdss.c
@@ -270,8 +270,10 @@ HECDSS_API int hec_dss_tsGetSizes(dss_file* dss, const char* pathname,
     tss->endJulianDate = dateToJulian(endDate);
     tss->endTimeSeconds = timeStringToSeconds(endTime);
 
-    ztsProcessTimes(dss->ifltab, tss, 0);
-    int status = ztsGetSizes(dss->ifltab, tss, recordSize);
+    int status = ztsProcessTimes(dss->ifltab, tss, 0);
+    if (status == 0 || status == 1) {  // regular or irregular
+      status = ztsGetSizes(dss->ifltab, tss, recordSize);
+    }
     if (status == 0) {
       *numberValues = recordSize->logicalNumberValues;
       *qualityElementSize = recordSize->tsQualityElementSize;
-- 
2.43.0


From 7f79057390be4e420962755755d59007d4b9301b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:14 +0000
Subject: [PATCH 069/103] fix: units and type of a series were read out of
 records of other kinds

---
 heclib/hecdss/hecdss.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/heclib/hecdss/hecdss.c b/heclib/hecdss/hecdss.c
index 424b970..4f82f0f 100644
--- a/heclib/hecdss/hecdss.c
+++ b/heclib/hecdss/hecdss.c
@@ -296,11 +296,18 @@ HECDSS_API int hec_dss_tsRetrieveInfo(dss_file* pdss, const char* pathname,char*
     zStructTimeSeries* tss = zstructTsNew(pathname);
     transfer->internalHeaderMode = 1;
     int status = zread(pdss->ifltab, transfer);
+    if (status == 0 && (transfer->dataType < DATA_TYPE_RTS || transfer->dataType >= DATA_TYPE_PD))
+    {
+      status = STATUS_NOT_OKAY;  // not a time series
+    }
     if (status == 0)
     {
       int intervalType = ztsProcessTimes(pdss->ifltab, tss, 0);
-      status = ztsInternalHeaderUnpack(tss, transfer->internalHeader, transfer->internalHeaderNumber);
-
+      status = intervalType == 0 || intervalType == 1 ?
+        ztsInternalHeaderUnpack(tss, transfer->internalHeader, transfer->internalHeaderNumber) : STATUS_NOT_OKAY;
+    }
+    if (status == 0)
+    {
       hec_dss_copyString(units, unitsLength, tss->units);
       hec_dss_copyString(type, typeLength, tss->type);
     }
-- 
2.43.0


From f689fb8d5c1e75116b420b3a0ae7eeb58e02bcfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:14 +0000
Subject: [PATCH 070/103] fix: sizes and units of paired data were written
 although there are none

---
 heclib/hecdss/hecdss.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/heclib/hecdss/hecdss.c b/heclib/hecdss/hecdss.c
index 4f82f0f..6026642 100644
--- a/heclib/hecdss/hecdss.c
+++ b/heclib/hecdss/hecdss.c
@@ -536,6 +536,10 @@ HECDSS_API int hec_dss_pdRetrieveInfo(dss_file* dss, const char* pathname,
   int* labelsLength) {
   zStructPairedData* pds = zstructPdNew(pathname);
   int status = zpdRetrieve(dss->ifltab, pds, RETRIEVE_DOUBLES);
+  if (status != 0) {
+    zstructFree(pds);
+    return status;
+  }
 
   *numberOrdinates = pds->numberOrdinates;
   *numberCurves = pds->numberCurves;
-- 
2.43.0


From 1d9ed74f3bcb05267213ef8f0f766c8b3c260bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:53 +0000
Subject: [PATCH 071/103] fix: the public array functions never freed their
 struct

---
 heclib/hecdss/hecdss.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/heclib/hecdss/hecdss.c b/heclib/hecdss/hecdss.c
index 6026642..f4e9886 100644
--- a/heclib/hecdss/hecdss.c
+++ b/heclib/hecdss/hecdss.c
@@ -868,6 +868,7 @@ HECDSS_API int hec_dss_arrayStore(dss_file* dss, const char* pathname,
   }
   int status = zarrayStore(dss->ifltab, array);
 
+  zstructFree(array);  // the arrays themselves are the caller's
   return status;
 }
 
@@ -882,6 +883,7 @@ HECDSS_API int hec_dss_arrayRetrieveInfo(dss_file* dss, const char* pathname,
     *floatValuesRead = array->numberFloatArray;
     *doubleValuesRead = array->numberDoubleArray;
   }
+  zstructFree(array);
   return status;
 }
 
@@ -906,6 +908,7 @@ HECDSS_API int hec_dss_arrayRetrieve(dss_file* dss, const char* pathname,
     }
   }
 
+  zstructFree(array);
   return status;
 }
 
-- 
2.43.0


From e8d3014ffe8d568addb040f0eabfe5c5813ab969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:36 +0000
Subject: [PATCH 072/103] fix: the floats made from the values given to the
 public store functions were never freed

---
 heclib/hecdss/hecdss.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/heclib/hecdss/hecdss.c b/heclib/hecdss/hecdss.c
index f4e9886..d41365e 100644
--- a/heclib/hecdss/hecdss.c
+++ b/heclib/hecdss/hecdss.c
@@ -395,7 +395,7 @@ HECDSS_API int hec_dss_tsStoreRegular(dss_file* dss, const char* pathname,
       
 
     tss = zstructTsNewRegFloats(pathname, values, valueArraySize, startDate, startTime, units, type);
-    tss->allocated[zSTRUCT_TS_floatValues];// zstructFree will free float array
+    tss->allocated[zSTRUCT_TS_floatValues] = 1;// zstructFree will free float array
   }
   else {
     tss = zstructTsNewRegDoubles(pathname, valueArray, valueArraySize, startDate, startTime, units, type);
@@ -433,7 +433,7 @@ HECDSS_API int hec_dss_tsStoreIregular(dss_file* dss, const char* pathname,
 
     tss = zstructTsNewIrregFloats(pathname,values, valueArraySize,times,
       timeGranularitySeconds, startDateBase,units, type);
-    tss->allocated[zSTRUCT_TS_floatValues];
+    tss->allocated[zSTRUCT_TS_floatValues] = 1;
   }
   else {
     tss = zstructTsNewIrregDoubles(pathname, valueArray, valueArraySize, times,
-- 
2.43.0


From 56c97de1ec4676d9bc4edf24dc05ee1d0a3f554b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:09 +0000
Subject: [PATCH 073/103] fix: a refused write still raised the sizes recorded
 in the file header

---
 heclib/heclib_c/src/Internal/zwriteInternal.c | 82 +++++++++----------
 1 file changed, 40 insertions(+), 42 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zwriteInternal.c b/heclib/heclib_c/src/Internal/zwriteInternal.c
index 49b5e49..19099d3 100644
--- a/heclib/heclib_c/src/Internal/zwriteInternal.c
+++ b/heclib/heclib_c/src/Internal/zwriteInternal.c
@@ -266,6 +266,46 @@ int zwriteInternal(long long *ifltab, zStructTransfer* ztransfer, int checked,
 	}
 
 
+	//  Read info block if we need to
+	if (checked == 0) {
+		status = zreadInfo(ifltab, ztransfer->pathname, 0);
+		if (zisError(status)) {
+			//  Error occured; update and return
+			zlockActive(ifltab, LOCKING_LEVEL_LOW, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
+			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zwriteInternal_ID);
+		}
+	}
+	else if (checked == 1) {
+		status = STATUS_RECORD_NOT_FOUND;
+	}
+	else {  //  if (checked == 2) {
+		status = STATUS_RECORD_FOUND;
+	}
+
+	// Allocate or update space and sizes
+	boolNew = (status == STATUS_RECORD_NOT_FOUND);
+	if (boolNew) {
+		//  New record
+		//  Create record location and addresses to it.
+		status = zwriteNew(ifltab, ztransfer,
+			bufferControl, buffer, bufferAction, &wroteAtEOF);
+
+	}
+	else {
+		// existing record
+		//  Update sizes
+		status = zwriteExisting(ifltab, ztransfer,
+			bufferControl, buffer, bufferAction, &wroteAtEOF,
+			&replacedAddress, &replacedSize);
+	}
+
+
+	if (zisError(status)) {
+		//  Error code generated in the lower functions
+		zlockActive(ifltab, LOCKING_LEVEL_LOW, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
+		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zwriteInternal_ID);
+	}
+
 	//  Check to see if area lengths are greater than max for this file
 	if (ztransfer->internalHeaderNumber > (int)fileHeader[zdssFileKeys.kmaxInternalHeader]) {
 		fileHeader[zdssFileKeys.kmaxInternalHeader] = (long long)ztransfer->internalHeaderNumber;
@@ -320,48 +360,6 @@ int zwriteInternal(long long *ifltab, zStructTransfer* ztransfer, int checked,
 		if (totalNumber > fileHeader[zdssFileKeys.kmaxOtherSize]) fileHeader[zdssFileKeys.kmaxOtherSize] = totalNumber;
 	}
 
-
-
-	//  Read info block if we need to
-	if (checked == 0) {
-		status = zreadInfo(ifltab, ztransfer->pathname, 0);
-		if (zisError(status)) {
-			//  Error occured; update and return
-			zlockActive(ifltab, LOCKING_LEVEL_LOW, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
-			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zwriteInternal_ID);
-		}
-	}
-	else if (checked == 1) {
-		status = STATUS_RECORD_NOT_FOUND;
-	}
-	else {  //  if (checked == 2) {
-		status = STATUS_RECORD_FOUND;
-	}
-
-	// Allocate or update space and sizes
-	boolNew = (status == STATUS_RECORD_NOT_FOUND);
-	if (boolNew) {
-		//  New record
-		//  Create record location and addresses to it.
-		status = zwriteNew(ifltab, ztransfer,
-			bufferControl, buffer, bufferAction, &wroteAtEOF);
-
-	}
-	else {
-		// existing record
-		//  Update sizes
-		status = zwriteExisting(ifltab, ztransfer,
-			bufferControl, buffer, bufferAction, &wroteAtEOF,
-			&replacedAddress, &replacedSize);
-	}
-
-
-	if (zisError(status)) {
-		//  Error code generated in the lower functions
-		zlockActive(ifltab, LOCKING_LEVEL_LOW, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
-		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zwriteInternal_ID);
-	}
-
 	info = (long long *)ifltab[zdssKeys.kinfo];
 
 
-- 
2.43.0


From 28ce4f76f7078b2ed0f713b6e80883995f029a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:18 +0000
Subject: [PATCH 074/103] fix: a write refused because of the record type still
 marked the record as written

---
 heclib/heclib_c/src/Internal/zwriteExisting.c | 54 +++++++++----------
 1 file changed, 27 insertions(+), 27 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zwriteExisting.c b/heclib/heclib_c/src/Internal/zwriteExisting.c
index 3c87d7a..f1e2586 100644
--- a/heclib/heclib_c/src/Internal/zwriteExisting.c
+++ b/heclib/heclib_c/src/Internal/zwriteExisting.c
@@ -174,33 +174,6 @@ int zwriteExisting(long long *ifltab, zStructTransfer* ztransfer,
 		zmessageDebug(ifltab, DSS_FUNCTION_zwriteExisting_ID, "Handle: ", messageString);
 	}
 
-	status = STATUS_OKAY;
-	//  The total number of int values is the long number *2 of each
-	//  to take care of addressing.  values2 must start on a long boundary.
-	//  e.g., 3 floats take 2 longs, and 2 longs * 2 ints/long take 4 ints of space
-	totalNumberInts = numberLongsInInts(ztransfer->values1Number) + numberLongsInInts(ztransfer->values2Number) +
-		numberLongsInInts(ztransfer->values3Number);
-	totalNumberInts *= 2;
-
-	//  Use the same last written (current time) for record and file header
-	icurrentTime = getCurrentTimeMillis();
-	fileHeader[zdssFileKeys.klastWriteTime] = icurrentTime;
-	ifltab[zdssKeys.kmyLastWriteTime] = fileHeader[zdssFileKeys.klastWriteTime];
-	//  Update pathname bin
-	ifltab[zdssKeys.kbinLastWrite] = icurrentTime;
-	//  Update the first and last julian in the pathname bin, if needed
-	//  These dates were put here by a time series write function
-	i8toi4(ifltab[zdssKeys.kdataFirstDate], &julianFirst, &temp);
-	i8toi4(ifltab[zdssKeys.kdataLastDate],  &julianLast,  &temp);
-	ifltab[zdssKeys.kbinDates] = i4toi8(julianFirst, julianLast);
-	address = ifltab[zdssKeys.kinfoAddInBin] - zdssBinKeys.kbinInfoAdd +  zdssBinKeys.kbinLastWrite;
-
-	status = zput(ifltab, address, (int *)&ifltab[zdssKeys.kbinLastWrite], 2, 2);
-	if (zisError(status)) {
-		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zwriteExisting_ID);
-	}
-
-
 	info = (long long *)ifltab[zdssKeys.kinfo];
 	//  Check that we are writing the same data type.
 	//  You typically cannot overwrite a different data type - must first delete the record
@@ -230,6 +203,33 @@ int zwriteExisting(long long *ifltab, zStructTransfer* ztransfer,
 		}
 	}
 
+	status = STATUS_OKAY;
+	//  The total number of int values is the long number *2 of each
+	//  to take care of addressing.  values2 must start on a long boundary.
+	//  e.g., 3 floats take 2 longs, and 2 longs * 2 ints/long take 4 ints of space
+	totalNumberInts = numberLongsInInts(ztransfer->values1Number) + numberLongsInInts(ztransfer->values2Number) +
+		numberLongsInInts(ztransfer->values3Number);
+	totalNumberInts *= 2;
+
+	//  Use the same last written (current time) for record and file header
+	icurrentTime = getCurrentTimeMillis();
+	fileHeader[zdssFileKeys.klastWriteTime] = icurrentTime;
+	ifltab[zdssKeys.kmyLastWriteTime] = fileHeader[zdssFileKeys.klastWriteTime];
+	//  Update pathname bin
+	ifltab[zdssKeys.kbinLastWrite] = icurrentTime;
+	//  Update the first and last julian in the pathname bin, if needed
+	//  These dates were put here by a time series write function
+	i8toi4(ifltab[zdssKeys.kdataFirstDate], &julianFirst, &temp);
+	i8toi4(ifltab[zdssKeys.kdataLastDate],  &julianLast,  &temp);
+	ifltab[zdssKeys.kbinDates] = i4toi8(julianFirst, julianLast);
+	address = ifltab[zdssKeys.kinfoAddInBin] - zdssBinKeys.kbinInfoAdd +  zdssBinKeys.kbinLastWrite;
+
+	status = zput(ifltab, address, (int *)&ifltab[zdssKeys.kbinLastWrite], 2, 2);
+	if (zisError(status)) {
+		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zwriteExisting_ID);
+	}
+
+
 	//  Be sure we don't try to store negative lengths
 	if (ztransfer->internalHeaderNumber < 0) ztransfer->internalHeaderNumber = 0;
 	if (ztransfer->header2Number < 0) ztransfer->header2Number = 0;
-- 
2.43.0


From 58a3dd32b5c8d7f1a48463190d9be75c63d5dbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:28 +0000
Subject: [PATCH 075/103] fix: a time series was merged with, or stored over, a
 record of another type

---
 heclib/heclib_c/src/Internal/ztsIrregStoreBlock.c | 10 ++++++++++
 heclib/heclib_c/src/Internal/ztsRegStoreBlock.c   |  9 +++++++++
 2 files changed, 19 insertions(+)

diff --git a/heclib/heclib_c/src/Internal/ztsIrregStoreBlock.c b/heclib/heclib_c/src/Internal/ztsIrregStoreBlock.c
index a0f4577..4906e50 100644
--- a/heclib/heclib_c/src/Internal/ztsIrregStoreBlock.c
+++ b/heclib/heclib_c/src/Internal/ztsIrregStoreBlock.c
@@ -234,6 +234,8 @@ int ztsIrregStoreBlock(long long *ifltab, zStructTimeSeries *tss, const char *pa
 	int allMissing=0;
 	int status;
 	int zero = 0;
+	int recordDataType;
+	int recordVersion;
 	int one = 1;
 	int numberRead;
 	int i;
@@ -369,6 +371,14 @@ int ztsIrregStoreBlock(long long *ifltab, zStructTimeSeries *tss, const char *pa
 			ifltab[zdssKeys.kinfoAddress] = ifltab[zdssKeys.kaddInfoLastPath];
 			info = (long long *)ifltab[zdssKeys.kinfo];
 
+			//  The record has to be an irregular interval time series to be merged with
+			i8toi4(info[zdssInfoKeys.kinfoTypeVersion], &recordDataType, &recordVersion);
+			if ((recordDataType < DATA_TYPE_ITS) || (recordDataType >= DATA_TYPE_PD)) {
+				return zerrorProcessing(ifltab, DSS_FUNCTION_ztsIrregStoreBlock_ID,
+					zdssErrorCodes.DIFFERENT_RECORD_TYPE, recordDataType, (long long)dataType,
+					zdssErrorSeverity.WRITE_ERROR, pathname, "");
+			}
+
 			//  Now read internal header array
 			lengthInternalHeaderRead = (int)info[zdssInfoKeys.kinfoInternalHeadNumber];
 			if (lengthInternalHeaderRead > sizeInternalHeaderRead) lengthInternalHeaderRead = sizeInternalHeaderRead;
diff --git a/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c b/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c
index 6a161ec..8970ece 100644
--- a/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c
+++ b/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c
@@ -265,6 +265,8 @@ int ztsRegStoreBlock(long long *ifltab, zStructTimeSeries *tss, const char *path
 
 	int *headerRead3;
 	int sizeHeaderRead3 = 0;
+	int recordDataType;
+	int recordVersion;
 	int numberHeaderRead3;
 	
 
@@ -354,6 +356,13 @@ int ztsRegStoreBlock(long long *ifltab, zStructTimeSeries *tss, const char *path
 		if (status == STATUS_RECORD_FOUND) {			
 			info = (long long *)ifltab[zdssKeys.kinfo];	
 			boolFound = 1;
+			//  The record has to be a regular interval time series to be merged with
+			i8toi4(info[zdssInfoKeys.kinfoTypeVersion], &recordDataType, &recordVersion);
+			if ((recordDataType < DATA_TYPE_RTS) || (recordDataType >= DATA_TYPE_ITS)) {
+				return zerrorProcessing(ifltab, DSS_FUNCTION_ztsRegStoreBlock_ID,
+					zdssErrorCodes.DIFFERENT_RECORD_TYPE, recordDataType, (long long)dataType,
+					zdssErrorSeverity.WRITE_ERROR, pathname, "");
+			}
 			//  Keep location of info
 			ifltab[zdssKeys.kinfoSize] = zdssVals.infoSize + numberLongsInBytes((int)ifltab[zdssKeys.klenLastPath]);;
 			ifltab[zdssKeys.kiftPathHash] = ifltab[zdssKeys.kpathnameHash];
-- 
2.43.0


From 3e3a61fffdf7cb88a8cdfd46aa202f90bdfd65df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:41 +0000
Subject: [PATCH 076/103] fix: storing paired data deleted a record of another
 type with the same pathname

---
 heclib/heclib_c/src/Public/zpdStore.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Public/zpdStore.c b/heclib/heclib_c/src/Public/zpdStore.c
index e21048d..7165166 100644
--- a/heclib/heclib_c/src/Public/zpdStore.c
+++ b/heclib/heclib_c/src/Public/zpdStore.c
@@ -866,7 +866,8 @@ int zpdStore(long long *ifltab, zStructPairedData *pds, int storageFlag)
 		if (boolStoreEntire)
 		{
 			int diskType = zdataType(ifltab,pds->pathname );
-			if (diskType > 0 && diskType != dataType) // exists and not the same dataType
+			//  Paired data exists, but not of the same dataType (records of other kinds are not replaced)
+			if (((diskType == DATA_TYPE_PD) || (diskType == DATA_TYPE_PDD)) && (diskType != dataType))
 			{
 				zdelete(ifltab, pds->pathname);
 			}
-- 
2.43.0


From 29a0c543b2073d5aaa49bad623b168658fa0df41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:03 +0000
Subject: [PATCH 077/103] fix: deleting or undeleting a record that does not
 exist rewrote the file header

---
 heclib/heclib_c/src/Internal/zdeleteInternal.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zdeleteInternal.c b/heclib/heclib_c/src/Internal/zdeleteInternal.c
index 1ad9778..e96fdfe 100644
--- a/heclib/heclib_c/src/Internal/zdeleteInternal.c
+++ b/heclib/heclib_c/src/Internal/zdeleteInternal.c
@@ -71,6 +71,7 @@ int zdeleteInternal(long long *ifltab, const char *pathname, int boolUndelete)
 	int reclaimFlag;
 	int readAction;
 	int status;
+	int boolFound;
 
 
 	fileHeader = (long long *)ifltab[zdssKeys.kfileHeader];
@@ -138,7 +139,8 @@ int zdeleteInternal(long long *ifltab, const char *pathname, int boolUndelete)
 		return zerrorUpdate(ifltab, status, functionID);
 	}
 
-	if (status == STATUS_OKAY) {
+	boolFound = (status == STATUS_OKAY);
+	if (boolFound) {
 		//  If undeleting, make sure reclamation is off, otherwise this space
 		//  could be used by something else
 		//  (at this point, we know it has not been used because hashes match in info.)
@@ -274,7 +276,7 @@ int zdeleteInternal(long long *ifltab, const char *pathname, int boolUndelete)
 	}
 
 	//  Reset reclaim level, if we need to
-	if (boolUndelete && (reclaimFlag > -1)) {
+	if (boolUndelete && boolFound && (reclaimFlag > -1)) {
 		zreclaimSet(ifltab, reclaimFlag);
 	}
 
@@ -283,9 +285,12 @@ int zdeleteInternal(long long *ifltab, const char *pathname, int boolUndelete)
 	ifltab[zdssKeys.kaddInfoLastPath] = 0;
 	ifltab[zdssKeys.kpathnameHash] = 0;
 
-	icurrentTime = getCurrentTimeMillis();
-	fileHeader[zdssFileKeys.klastWriteTime] = icurrentTime;
-	ifltab[zdssKeys.kwritingNow] = 1;
+	//  If there was no such record, nothing was written
+	if (boolFound) {
+		icurrentTime = getCurrentTimeMillis();
+		fileHeader[zdssFileKeys.klastWriteTime] = icurrentTime;
+		ifltab[zdssKeys.kwritingNow] = 1;
+	}
 
 	//  Unlock
 	zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
-- 
2.43.0


From 45817192f08eef1ea6f505c98ae9f3c28e4442f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:55 +0000
Subject: [PATCH 078/103] fix: storing a regular series without a valid start
 date ended the process instead of being refused

---
 heclib/heclib_c/src/Public/ztsStore.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/heclib/heclib_c/src/Public/ztsStore.c b/heclib/heclib_c/src/Public/ztsStore.c
index 1caa321..368be96 100644
--- a/heclib/heclib_c/src/Public/ztsStore.c
+++ b/heclib/heclib_c/src/Public/ztsStore.c
@@ -295,6 +295,14 @@ int ztsStore(long long *ifltab, zStructTimeSeries *tss, int storageFlag)
 				0, zdssErrorSeverity.WARNING, tss->pathname, "");
 	}
 
+	//  Regular interval values need a (valid) starting date and time
+	if ((intervalType == 0) && !tss->boolPattern &&
+		!isTimeDefined(tss->timeWindow->startJulian, tss->timeWindow->startTimeSeconds)) {
+		return zerrorProcessing(ifltab, DSS_FUNCTION_ztsStore_ID,
+				zdssErrorCodes.INVALID_DATE_TIME, tss->timeWindow->startJulian,
+				tss->timeWindow->startTimeSeconds, zdssErrorSeverity.WARNING, tss->pathname, "");
+	}
+
 	if (tss->boolPattern) {
 		status = ztsStorePattern(ifltab, tss);
 		/////////////////////////
-- 
2.43.0


From 42a9a03cac64f6c004f89f4ca5b5a9749cdfa4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:57 +0000
Subject: [PATCH 079/103] fix: a record without dates was given those of a
 record accessed earlier

---
 heclib/heclib_c/src/Internal/zwriteInternal.c  | 9 +++++++++
 heclib/heclib_c/src/Public/zspatialGridStore.c | 2 ++
 heclib/heclib_c/src/Public/zspatialTinStore.c  | 2 ++
 3 files changed, 13 insertions(+)

diff --git a/heclib/heclib_c/src/Internal/zwriteInternal.c b/heclib/heclib_c/src/Internal/zwriteInternal.c
index 19099d3..30d2978 100644
--- a/heclib/heclib_c/src/Internal/zwriteInternal.c
+++ b/heclib/heclib_c/src/Internal/zwriteInternal.c
@@ -266,6 +266,15 @@ int zwriteInternal(long long *ifltab, zStructTransfer* ztransfer, int checked,
 	}
 
 
+	//  Only time series and spatial records have dates;
+	//  do not give this one those of a record accessed earlier
+	if ((ztransfer->dataType < DATA_TYPE_RTS) || (ztransfer->dataType >= DATA_TYPE_PD)) {
+		if ((ztransfer->dataType < 400) || (ztransfer->dataType > DATA_TYPE_SPATIAL_TIN)) {
+			ifltab[zdssKeys.kdataFirstDate] = 0;
+			ifltab[zdssKeys.kdataLastDate] = 0;
+		}
+	}
+
 	//  Read info block if we need to
 	if (checked == 0) {
 		status = zreadInfo(ifltab, ztransfer->pathname, 0);
diff --git a/heclib/heclib_c/src/Public/zspatialGridStore.c b/heclib/heclib_c/src/Public/zspatialGridStore.c
index b97243d..c24c197 100644
--- a/heclib/heclib_c/src/Public/zspatialGridStore.c
+++ b/heclib/heclib_c/src/Public/zspatialGridStore.c
@@ -317,6 +317,8 @@ int zspatialGridStore_extended(long long* ifltab, zStructSpatialGrid* gridStruct
 
 
 	//  Save the date!
+	ifltab[zdssKeys.kdataFirstDate] = 0;
+	ifltab[zdssKeys.kdataLastDate] = 0;
 	len = zpathnameGetPart(ztransfer->pathname, 4, dPart, sizeof(dPart));
 	if (len > 12) {
 		dateStatus = spatialDateTime(dPart, &julianFirstValue, &secondsFirstValue);
diff --git a/heclib/heclib_c/src/Public/zspatialTinStore.c b/heclib/heclib_c/src/Public/zspatialTinStore.c
index 9a6fb4a..dd01966 100644
--- a/heclib/heclib_c/src/Public/zspatialTinStore.c
+++ b/heclib/heclib_c/src/Public/zspatialTinStore.c
@@ -222,6 +222,8 @@ int zspatialTinStore(long long *ifltab, zStructSpatialTin *tinStruct)
 	 }
 
 	 //  Save the date!
+	ifltab[zdssKeys.kdataFirstDate] = 0;
+	ifltab[zdssKeys.kdataLastDate] = 0;
 	 len = zpathnameGetPart (ztransfer->pathname, 4, dPart, sizeof(dPart));
 	 if (len > 12) {
 		dateStatus = spatialDateTime(dPart, &julianFirstValue, &secondsFirstValue);
-- 
2.43.0


From d05268ea9ba6bef57750e6eadf40ffb0015feca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:17 +0000
Subject: [PATCH 080/103] fix: the message for a long pathname was written one
 byte beyond its buffer

---
 heclib/heclib_c/src/Internal/zmessConcat.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Internal/zmessConcat.c b/heclib/heclib_c/src/Internal/zmessConcat.c
index cd6770b..ae381eb 100644
--- a/heclib/heclib_c/src/Internal/zmessConcat.c
+++ b/heclib/heclib_c/src/Internal/zmessConcat.c
@@ -54,10 +54,12 @@ char *zmessConcat1(char *messIn, size_t sizeIn, const char *message)
 		return messOut;
 	}
 
+	if (lenMessIn > 0)  {
+		lenCombined++;  //  For new line at beginning of message
+	}
 	if (lenCombined > (int)sizeIn) lenCombined = (int)sizeIn;
 
 	if (lenMessIn > 0)  {
-		lenCombined++;  //  For new line at beginning of message
 		stringCat(messOut, (size_t)lenCombined, "\n", _TRUNCATE);
 	}
 	stringCat(messOut, (size_t)lenCombined, message, _TRUNCATE);
-- 
2.43.0


From c32dd5085516d6f1b1addb1aa21e0a1a690c7ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:52 +0000
Subject: [PATCH 081/103] fix: reading, cataloguing or copying through a handle
 that is not open crashed or reported success

---
 heclib/heclib_c/src/DssInterface/v6and7/zcopyRecord.c | 7 ++++++-
 heclib/heclib_c/src/Internal/zcatInternalSort.c       | 4 ++++
 heclib/heclib_c/src/Internal/zreadInfo.c              | 5 +++++
 3 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/DssInterface/v6and7/zcopyRecord.c b/heclib/heclib_c/src/DssInterface/v6and7/zcopyRecord.c
index c347f96..6c1e7a0 100644
--- a/heclib/heclib_c/src/DssInterface/v6and7/zcopyRecord.c
+++ b/heclib/heclib_c/src/DssInterface/v6and7/zcopyRecord.c
@@ -278,7 +278,12 @@ int zcopyRecord(long long *ifltabFrom, long long *ifltabTo, const char *pathname
 				return zerrorUpdate(ifltabTo, status, DSS_FUNCTION_zcopyRecord_ID);
 			}
 		}
-		
+		else {
+			//  Other types can only be copied between version 7 files that are open
+			return zerrorProcessing(ifltabTo, DSS_FUNCTION_zcopyRecord_ID,
+				zdssErrorCodes.INCOMPATIBLE_VERSION, versFileTo, 0,
+				zdssErrorSeverity.WARNING, pathnameTo, "");
+		}
 	}
 	return status;
 }
diff --git a/heclib/heclib_c/src/Internal/zcatInternalSort.c b/heclib/heclib_c/src/Internal/zcatInternalSort.c
index 1ade19f..8316fe6 100644
--- a/heclib/heclib_c/src/Internal/zcatInternalSort.c
+++ b/heclib/heclib_c/src/Internal/zcatInternalSort.c
@@ -167,6 +167,10 @@ int zcatInternalSort(long long *ifltab, const char *pathWithWild, zStructCatalog
 	FILE *sortedFP;
 
 
+	if ((zgetVersion(ifltab) != 6) && (zgetVersion(ifltab) != 7)) {
+		return zerrorProcessing(ifltab, DSS_FUNCTION_zcatalog_ID, zdssErrorCodes.NOT_OPENED,
+			0, 0, zdssErrorSeverity.INVALID_ARGUMENT, "", "");
+	}
 	if (sortedStruct && (zgetVersion(ifltab) == 6)) {
 		sortedStruct->boolIncludeDates = 0;
 	}
diff --git a/heclib/heclib_c/src/Internal/zreadInfo.c b/heclib/heclib_c/src/Internal/zreadInfo.c
index 8c7cfbd..fdf6d98 100644
--- a/heclib/heclib_c/src/Internal/zreadInfo.c
+++ b/heclib/heclib_c/src/Internal/zreadInfo.c
@@ -120,6 +120,11 @@ int zreadInfo(long long *ifltab, const char *pathname, int statusWanted)
 		zmessageDebug(ifltab, DSS_FUNCTION_zreadInfo_ID, "Handle: ", messageString);
 	}
 
+	if (zgetVersion(ifltab) != 7) {
+		return zerrorProcessing(ifltab, DSS_FUNCTION_zreadInfo_ID, zdssErrorCodes.NOT_OPENED,
+								0, 0, zdssErrorSeverity.INVALID_ARGUMENT, pathname, "");
+	}
+
 	//   Check that the record exists, and get the address of the info block (in zcheck)
 	if (statusWanted == 0) {
 		status = zcheck(ifltab, pathname);
-- 
2.43.0


From 0c3fa7b10826b1ca784e0f62f4e48252d982e00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:47 +0000
Subject: [PATCH 082/103] fix: after an alias was looked at, reading a record
 that is not there failed with an error instead of 'not found'

---
 heclib/heclib_c/src/Internal/zcheckInternal.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/heclib/heclib_c/src/Internal/zcheckInternal.c b/heclib/heclib_c/src/Internal/zcheckInternal.c
index 67c0495..09ab41b 100644
--- a/heclib/heclib_c/src/Internal/zcheckInternal.c
+++ b/heclib/heclib_c/src/Internal/zcheckInternal.c
@@ -217,6 +217,7 @@ int zcheckInternal(long long *ifltab, const char* pathname, int statusWanted)
 	//  Clear pointers
 	//  This must be set to zero before walking down any bins
 	ifltab[zdssKeys.kbinWithSpace] = 0;
+	ifltab[zdssKeys.kbinStatus] = REC_STATUS_VALID;
 	//  Zero the address of the info area of the last record
 	//  checked to clear the last record accessed
 	ifltab[zdssKeys.kaddInfoLastPath] = 0;
-- 
2.43.0


From db900871cc35c520c3312d450979384d398e2df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:48 +0000
Subject: [PATCH 083/103] fix: a file copied through a handle opened earlier
 missed what another process had added since

---
 heclib/heclib_c/src/Public/zcopyFile.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/heclib/heclib_c/src/Public/zcopyFile.c b/heclib/heclib_c/src/Public/zcopyFile.c
index 9c1721b..8284353 100644
--- a/heclib/heclib_c/src/Public/zcopyFile.c
+++ b/heclib/heclib_c/src/Public/zcopyFile.c
@@ -130,6 +130,11 @@ int zcopyFile(long long *ifltabFrom, long long *ifltabTo, int statusWanted)
 		}
 	}
 
+	//  Another process may have added records since the header was last read
+	status = zpermRead(ifltabFrom);
+	if (zisError(status)) {
+		return zerrorUpdate(ifltabFrom, status, DSS_FUNCTION_zcopyFile_ID);
+	}
 
 	fileHeader = (long long *)ifltabFrom[zdssKeys.kfileHeader];
 	fileSize = fileHeader[zdssFileKeys.kfileSize];
-- 
2.43.0


From 6eeed726eccd5d8927ce0719abe4fb08d8c8d1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:48 +0000
Subject: [PATCH 084/103] fix: the number of records was that of when the
 handle last read the file header

---
 heclib/heclib_c/src/Public/zinquire.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/heclib/heclib_c/src/Public/zinquire.c b/heclib/heclib_c/src/Public/zinquire.c
index d4fe0bc..ebdaaeb 100644
--- a/heclib/heclib_c/src/Public/zinquire.c
+++ b/heclib/heclib_c/src/Public/zinquire.c
@@ -86,12 +86,15 @@ long long zinquire(long long *ifltab, const char *request)
 	}
 	//
 	else if (!strcmp(requestlc, "nrec")) {
+		zpermRead(ifltab);  //  Another process may have changed the file
 		longNumber = fileHeader[zdssFileKeys.knumberRecords] + fileHeader[zdssFileKeys.knumberAliases];
 	}
 	else if (!strcmp(requestlc, "npri")) {
+		zpermRead(ifltab);
 		longNumber = fileHeader[zdssFileKeys.knumberRecords];
 	}
 	else if (!strcmp(requestlc, "nali")) {
+		zpermRead(ifltab);
 		longNumber = fileHeader[zdssFileKeys.knumberAliases];
 	}
 	else if (!strcmp(requestlc, "mlvl")) {
-- 
2.43.0


From 86fcb1e924723c29aafa45c048dca6c486a941a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:02 +0000
Subject: [PATCH 085/103] fix: the file checkers reported errors for a sound
 file with aliases

---
 heclib/heclib_c/src/Internal/zreadInfoBlock.c    | 15 +++++++++++++--
 heclib/heclib_c/src/SemiPublic/zcheckPathnames.c |  7 ++++---
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zreadInfoBlock.c b/heclib/heclib_c/src/Internal/zreadInfoBlock.c
index 3c1e4f7..731f007 100644
--- a/heclib/heclib_c/src/Internal/zreadInfoBlock.c
+++ b/heclib/heclib_c/src/Internal/zreadInfoBlock.c
@@ -111,7 +111,7 @@ int zreadInfoBlock (long long *ifltab, const char *pathname, int statusWanted,
 					long long *info, int maxInfo, int *numberInfo)
 {
 	int status;
-	int istat;
+	char primaryPathname[MAX_PATHNAME_LENGTH];
 
 
 	if (zmessageLevel(ifltab, MESS_METHOD_CHECK_ID, MESS_LEVEL_USER_DIAG)) {
@@ -123,6 +123,17 @@ int zreadInfoBlock (long long *ifltab, const char *pathname, int statusWanted,
 	if (zisError(status)) {
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zreadInfo_ID);
 	}
+	if ((status == STATUS_RECORD_FOUND) && (ifltab[zdssKeys.kbinStatus] == REC_STATUS_ALIAS)) {
+		//  The bin of an alias may give the address of another alias, and the length of the pathname
+		//  is that of the alias; get to the info block of the primary
+		status = zaliasGetPrimary(ifltab, pathname, primaryPathname, sizeof(primaryPathname));
+		if (status == STATUS_RECORD_FOUND) {
+			status = zcheckInternal(ifltab, primaryPathname, REC_STATUS_PRIMARY);
+		}
+		if (zisError(status)) {
+			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zreadInfo_ID);
+		}
+	}
 
 	// existing record
 	if (status == STATUS_RECORD_FOUND) {
@@ -130,7 +141,7 @@ int zreadInfoBlock (long long *ifltab, const char *pathname, int statusWanted,
 		*numberInfo = zdssVals.infoSize + numberLongsInBytes((int)ifltab[zdssKeys.klenLastPath]);
 		if (*numberInfo > maxInfo)
 			*numberInfo = maxInfo;
-		istat = zget(ifltab, ifltab[zdssKeys.kaddInfoLastPath], (int *)info, *numberInfo, 2);
+		status = zget(ifltab, ifltab[zdssKeys.kaddInfoLastPath], (int *)info, *numberInfo, 2);
 		if (zisError(status)) {
 			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zreadInfo_ID);
 		}
diff --git a/heclib/heclib_c/src/SemiPublic/zcheckPathnames.c b/heclib/heclib_c/src/SemiPublic/zcheckPathnames.c
index 65218d2..7e0d1b6 100644
--- a/heclib/heclib_c/src/SemiPublic/zcheckPathnames.c
+++ b/heclib/heclib_c/src/SemiPublic/zcheckPathnames.c
@@ -189,14 +189,15 @@ int zcheckPathnames(long long *ifltab)
 		zmessageDebugInt(ifltab, DSS_FUNCTION_zcheckPathnames_ID, "Number not found: ", numberErrors);
 	}
 	if (numberErrors == 0) {
-		if (fileHeader[zdssFileKeys.knumberRecords] != numberFound) {
+		//  Both records and the aliases of records have been counted
+		if ((fileHeader[zdssFileKeys.knumberRecords] + fileHeader[zdssFileKeys.knumberAliases]) != numberFound) {
 			if (zmessageLevel(ifltab, MESS_METHOD_FILE_CHECK_ID, MESS_LEVEL_GENERAL)) {
 				zmessage(ifltab, "zcheckPathnames, More pathnames found in file than recorded in file header.");
 				_snprintf_s(messageString, sizeof(messageString), _TRUNCATE, " %d, Number in file header: %d",
-					numberFound, (int)fileHeader[zdssFileKeys.knumberRecords]);
+					numberFound, (int)(fileHeader[zdssFileKeys.knumberRecords] + fileHeader[zdssFileKeys.knumberAliases]));
 				zmessage2(ifltab, "Number counted:", messageString);
 			}
-			numberErrors = (int)fileHeader[zdssFileKeys.knumberRecords] - numberFound;
+			numberErrors = (int)(fileHeader[zdssFileKeys.knumberRecords] + fileHeader[zdssFileKeys.knumberAliases]) - numberFound;
 			if (numberErrors < 0) numberErrors = -numberErrors;
 		}
 	}
-- 
2.43.0


From 4f844bc41706df1dff1b7870627da4bd52977846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:02 +0000
Subject: [PATCH 086/103] fix: removing the aliases of a name that had been
 renamed or deleted removed those of another record

---
 heclib/heclib_c/src/Public/zaliasRemove.c    | 2 +-
 heclib/heclib_c/src/Public/zaliasRemoveAll.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/heclib/heclib_c/src/Public/zaliasRemove.c b/heclib/heclib_c/src/Public/zaliasRemove.c
index e34f052..6802bbf 100644
--- a/heclib/heclib_c/src/Public/zaliasRemove.c
+++ b/heclib/heclib_c/src/Public/zaliasRemove.c
@@ -105,7 +105,7 @@ int zaliasRemove(long long *ifltab, const char* aliasPathname)
 	infoAddressInBin = ifltab[zdssKeys.kaddInfoLastPath];
 
 	//  Read in the info block
-	status = zreadInfo(ifltab, aliasPathname, REC_STATUS_ANY);
+	status = zreadInfo(ifltab, aliasPathname, REC_STATUS_PRIMARY);
 	if (zisError(status)) {
 		zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zaliasRemove_ID);
diff --git a/heclib/heclib_c/src/Public/zaliasRemoveAll.c b/heclib/heclib_c/src/Public/zaliasRemoveAll.c
index 9f20fde..2e57048 100644
--- a/heclib/heclib_c/src/Public/zaliasRemoveAll.c
+++ b/heclib/heclib_c/src/Public/zaliasRemoveAll.c
@@ -87,7 +87,7 @@ int zaliasRemoveAll(long long *ifltab, const char* pathname)
 	fileHeader = (long long *)ifltab[zdssKeys.kfileHeader];
 
 	//  Read in the info block
-	status = zreadInfo(ifltab, pathname, REC_STATUS_ANY);
+	status = zreadInfo(ifltab, pathname, REC_STATUS_PRIMARY);
 	if (zisError(status)) {
 		zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zaliasRemove_ID);
-- 
2.43.0


From 426d58d0e0fd560e80d28a4de53cd5ebdbdabce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:02 +0000
Subject: [PATCH 087/103] fix: squeezing or copying a file lost the aliases of
 its records

---
 heclib/heclib_c/src/Public/zaliasList.c |  7 ++++-
 heclib/heclib_c/src/Public/zcopyFile.c  | 36 +++++++++++++++++++++++++
 2 files changed, 42 insertions(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Public/zaliasList.c b/heclib/heclib_c/src/Public/zaliasList.c
index 249eb41..085b85b 100644
--- a/heclib/heclib_c/src/Public/zaliasList.c
+++ b/heclib/heclib_c/src/Public/zaliasList.c
@@ -92,6 +92,7 @@ int zaliasList(long long *ifltab, const char* pathname, char** pathameList, int
 
 	list = 0;
 	listTemp = 0;
+	*pathameList = 0;
 	*pathnameListLength = 0;
 	numberPathnames = 0;
 
@@ -132,6 +133,7 @@ int zaliasList(long long *ifltab, const char* pathname, char** pathameList, int
 		while (1) {
 			status = zget(ifltab, aliasAddress, (int *)binAlias, 4, 2);
 			if (zisError(status)) {
+				free(list);
 				return zerrorUpdate(ifltab, status, DSS_FUNCTION_zaliasUtil_ID);
 			}
 			if (binAlias[0] == DSS_INFO_FLAG) {
@@ -142,9 +144,10 @@ int zaliasList(long long *ifltab, const char* pathname, char** pathameList, int
 			//  double check that we are still walking down alias bins
 			if (binAlias[zdssBinKeys.kbinStatus] != REC_STATUS_ALIAS) {
 				//  Uh-oh, shouldn't have this number - needs to be a "2"!
+				free(list);
 				return zerrorProcessing(ifltab, DSS_FUNCTION_zaliasUtil_ID,
 									zdssErrorCodes.RECORD_DOES_NOT_EXIST, 0,
-									0, zdssErrorSeverity.WARNING, list, "");
+									0, zdssErrorSeverity.WARNING, pathname, "");
 			}
 
 			i8toi4(binAlias[zdssBinKeys.kbinPathLen], &npath, &pathnameSize);
@@ -152,10 +155,12 @@ int zaliasList(long long *ifltab, const char* pathname, char** pathameList, int
 			bin = (long long *)ifltab[zdssKeys.kinfo];
 			status = zget(ifltab, aliasAddress, (int *)bin, number, 2);
 			if (zisError(status)) {
+				free(list);
 				return zerrorUpdate(ifltab, status, DSS_FUNCTION_zaliasUtil_ID);
 			}
 			listTemp = (char *)calloc(*pathnameListLength + npath + 9, 1);
 			if (!listTemp) {
+				free(list);
 				return zerrorProcessing(ifltab, DSS_FUNCTION_zaliasAdd_ID,
 						zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, (*pathnameListLength + npath + 1), 0,
 						zdssErrorSeverity.MEMORY_ERROR, "", "Allocating space for alias pathnameList");
diff --git a/heclib/heclib_c/src/Public/zcopyFile.c b/heclib/heclib_c/src/Public/zcopyFile.c
index 8284353..ff90ed9 100644
--- a/heclib/heclib_c/src/Public/zcopyFile.c
+++ b/heclib/heclib_c/src/Public/zcopyFile.c
@@ -60,6 +60,35 @@
 *
 **/
 
+//  Adds the aliases of a record that has been copied to the copy, in the order in which they were added
+//  (they are listed after the primary pathname, last one first).  Names that are in use are left alone.
+static void copyAliases(long long *ifltabFrom, long long *ifltabTo, const char *pathname)
+{
+	char *list = 0;
+	char *end;
+	int length;
+	int number;
+	int i;
+
+	number = zaliasList(ifltabFrom, pathname, &list, &length);
+	if (number > 1) {
+		end = list + length - 1;
+		for (i=1; i<number; i++) {
+			end--;
+			while ((end > list) && (*(end-1) != '\0')) {
+				end--;
+			}
+			if (zcheck(ifltabTo, end) == STATUS_RECORD_NOT_FOUND) {
+				zaliasAdd(ifltabTo, pathname, end);
+			}
+			end--;
+		}
+	}
+	if (number > 0) {
+		free(list);
+	}
+}
+
 int zcopyFile(long long *ifltabFrom, long long *ifltabTo, int statusWanted)
 {
 #define FILE_BUFF_SIZE	4028
@@ -206,6 +235,7 @@ int zcopyFile(long long *ifltabFrom, long long *ifltabTo, int statusWanted)
 
 						//  The directory tells which area is the record; an interrupted
 						//  write can leave one behind that the directory never referred to
+						infoBlock[zdssInfoKeys.kinfoAliasesBinAddress] = 0;
 						if (info[zdssInfoKeys.kinfoStatus] == REC_STATUS_PRIMARY) {
 							memcpy(infoBlock, info, (size_t)numberInfo * LONG_SIZE);
 							ifltabFrom[zdssKeys.kaddInfoLastPath] = 0;
@@ -231,6 +261,12 @@ int zcopyFile(long long *ifltabFrom, long long *ifltabTo, int statusWanted)
 							return zerrorUpdate(ifltabFrom, status, DSS_FUNCTION_zcopyFile_ID);
 						}
 
+						if ((statusWanted == REC_STATUS_VALID) && (zgetVersion(ifltabTo) == 7) &&
+							(infoBlock[zdssInfoKeys.kinfoAliasesBinAddress] != 0)) {
+							//  The names of the aliases of this record go with it
+							copyAliases(ifltabFrom, ifltabTo, pathname);
+						}
+
 						count++;
 						zprogress.currentNumber = count;
 
-- 
2.43.0


From b4b328c31fdfb317de7506097a5df757a0ff8dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:02 +0000
Subject: [PATCH 088/103] fix: the aliases of a record were lost when it was
 renamed to a longer name, and gave its former place when it had moved

---
 heclib/heclib_c/src/Internal/zbinUpdate.c     | 44 +++++++++++++++++++
 heclib/heclib_c/src/Internal/zwriteInternal.c |  6 +++
 heclib/heclib_c/src/Public/zrename.c          |  5 +++
 heclib/heclib_c/src/headers/hecdssInternal.h  |  1 +
 4 files changed, 56 insertions(+)

diff --git a/heclib/heclib_c/src/Internal/zbinUpdate.c b/heclib/heclib_c/src/Internal/zbinUpdate.c
index b491e2a..0942935 100644
--- a/heclib/heclib_c/src/Internal/zbinUpdate.c
+++ b/heclib/heclib_c/src/Internal/zbinUpdate.c
@@ -316,3 +316,47 @@ int zbinUpdate(long long *ifltab, const char* pathname, long long infoAddress,
 	return status;
 }
 
+/**
+*  Function:	zbinUpdateAliases
+*
+*  Use:			Private (internal)
+*
+*  Description:	When the information block of a record has moved, changes the pathname bin entry
+*					of its first alias, which gives the address of that block, accordingly.
+*
+*  Declaration: int zbinUpdateAliases(long long *ifltab, long long aliasAddress,
+*									  long long oldInfoAddress, long long newInfoAddress);
+*
+*  Parameters:	long long aliasAddress
+*					The address of the bin entry of the last alias (from the info block), or 0 if there are none.
+*
+*				long long oldInfoAddress, newInfoAddress
+*					The addresses of the information block before and after it has moved.
+*
+*	Returns:	int status
+*
+**/
+int zbinUpdateAliases(long long *ifltab, long long aliasAddress, long long oldInfoAddress, long long newInfoAddress)
+{
+	long long binAlias[4];
+	int status;
+
+	while ((aliasAddress != 0) && (aliasAddress != oldInfoAddress)) {
+		status = zget(ifltab, aliasAddress, (int *)binAlias, 4, 2);
+		if (zisError(status)) {
+			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zbinUpdate_ID);
+		}
+		if (binAlias[zdssBinKeys.kbinStatus] != REC_STATUS_ALIAS) {
+			break;
+		}
+		if (binAlias[zdssBinKeys.kbinInfoAdd] == oldInfoAddress) {
+			status = zput(ifltab, aliasAddress + zdssBinKeys.kbinInfoAdd, (int *)&newInfoAddress, 1, 2);
+			if (zisError(status)) {
+				return zerrorUpdate(ifltab, status, DSS_FUNCTION_zbinUpdate_ID);
+			}
+			break;
+		}
+		aliasAddress = binAlias[zdssBinKeys.kbinInfoAdd];
+	}
+	return STATUS_OKAY;
+}
diff --git a/heclib/heclib_c/src/Internal/zwriteInternal.c b/heclib/heclib_c/src/Internal/zwriteInternal.c
index 30d2978..aeab0fa 100644
--- a/heclib/heclib_c/src/Internal/zwriteInternal.c
+++ b/heclib/heclib_c/src/Internal/zwriteInternal.c
@@ -492,6 +492,12 @@ int zwriteInternal(long long *ifltab, zStructTransfer* ztransfer, int checked,
 			else {
 				//  Write the address of the new information area in the existing pathname bin
 				status = zput(ifltab, ifltab[zdssKeys.kinfoAddInBin], (int *)&ifltab[zdssKeys.kaddInfoLastPath], 1, 2);
+				if (!zisError(status)) {
+					//  and in that of the first alias
+					info = (long long *)ifltab[zdssKeys.kinfo];
+					status = zbinUpdateAliases(ifltab, info[zdssInfoKeys.kinfoAliasesBinAddress],
+						replacedAddress, ifltab[zdssKeys.kaddInfoLastPath]);
+				}
 				if (!zisError(status)) {
 					//  and flag the old area as moved
 					movedStatus = REC_STATUS_MOVED;
diff --git a/heclib/heclib_c/src/Public/zrename.c b/heclib/heclib_c/src/Public/zrename.c
index 0b8c78e..26bd19b 100644
--- a/heclib/heclib_c/src/Public/zrename.c
+++ b/heclib/heclib_c/src/Public/zrename.c
@@ -342,6 +342,11 @@ static int renameLocked(long long *ifltab, const char* oldPathname, const char*
 	if (!zisError(status) && (wroteAtEOF == 0)) {
 		status = zput(ifltab, ifltab[zdssKeys.kaddInfoLastPath], (int *)info, numberInfoNew, 2);
 	}
+	//  If the information area is a new one, the first alias has to give its address
+	if (!zisError(status) && (wroteAtEOF == 1)) {
+		status = zbinUpdateAliases(ifltab, info[zdssInfoKeys.kinfoAliasesBinAddress],
+			infoAddress, ifltab[zdssKeys.kaddInfoLastPath]);
+	}
 	//  Mark the old pathname bin status as renamed
 	binStatus = REC_STATUS_RENAMED;
 	if (!zisError(status)) {
diff --git a/heclib/heclib_c/src/headers/hecdssInternal.h b/heclib/heclib_c/src/headers/hecdssInternal.h
index 1d937f0..6c80524 100644
--- a/heclib/heclib_c/src/headers/hecdssInternal.h
+++ b/heclib/heclib_c/src/headers/hecdssInternal.h
@@ -120,6 +120,7 @@ int zcollectionsPath(char* pathname, size_t pathnameLength);
 int zcompareRecordStatus(int statusRead, int statusWanted);
 int zcheckMultiUser(long long *ifltab);
 int zbinNew(long long *ifltab);
+int zbinUpdateAliases(long long *ifltab, long long aliasAddress, long long oldInfoAddress, long long newInfoAddress);
 int zbinUpdate(long long *ifltab, const char* pathname, long long infoAddress, int recordStatus,
 			   int dataType);
 int zpdUnitsToHead(zStructPairedData *pds, int *internalHeader, int internalHeaderArraySize);
-- 
2.43.0


From 66ff2f8e54e912e63074d3db3b95890d513e808a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:28 +0000
Subject: [PATCH 089/103] fix: deleting a record with aliases gave up the lock
 on the file midway, and failed in a shared file

---
 heclib/heclib_c/src/Public/zaliasRemoveAll.c | 22 ++++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/heclib/heclib_c/src/Public/zaliasRemoveAll.c b/heclib/heclib_c/src/Public/zaliasRemoveAll.c
index 2e57048..dbc9abf 100644
--- a/heclib/heclib_c/src/Public/zaliasRemoveAll.c
+++ b/heclib/heclib_c/src/Public/zaliasRemoveAll.c
@@ -79,7 +79,7 @@ int zaliasRemoveAll(long long *ifltab, const char* pathname)
 
 	//  Lock the file if we are in a multi-user access mode
 	//  And read the file header
-	status = zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_ON, LOCKING_FLUSH_ON);
+	status = zlockActive(ifltab, LOCKING_LEVEL_LOW, LOCKING_LOCK_ON, LOCKING_FLUSH_ON);
 	if (zisError(status)) {
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zaliasRemove_ID);
 	}
@@ -89,7 +89,7 @@ int zaliasRemoveAll(long long *ifltab, const char* pathname)
 	//  Read in the info block
 	status = zreadInfo(ifltab, pathname, REC_STATUS_PRIMARY);
 	if (zisError(status)) {
-		zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+		zlockActive(ifltab, LOCKING_LEVEL_LOW, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zaliasRemove_ID);
 	}
 	if (status != STATUS_RECORD_FOUND) {
@@ -97,7 +97,7 @@ int zaliasRemoveAll(long long *ifltab, const char* pathname)
 			zmessageDebugInt(ifltab, DSS_FUNCTION_zaliasRemove_ID, "Exit zaliasRemove, status: ", status);
 			zmessageDebug(ifltab, DSS_FUNCTION_zaliasRemove_ID, "Record not found ", pathname);
 		}
-		zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+		zlockActive(ifltab, LOCKING_LEVEL_LOW, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 		return status;
 	}
 	info = (long long *)ifltab[zdssKeys.kinfo];
@@ -109,7 +109,7 @@ int zaliasRemoveAll(long long *ifltab, const char* pathname)
 			charLong(&info[zdssInfoKeys.kinfoPathname], path, (int)info[zdssInfoKeys.kinfoPathnameLength], sizeof(path), 0, 0);
 			zmessageDebug(ifltab, DSS_FUNCTION_zaliasRemove_ID, "Primary Pathname: ", path);
 		}
-		zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+		zlockActive(ifltab, LOCKING_LEVEL_LOW, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 		return STATUS_RECORD_NOT_FOUND;
 	}
 	//  Remove the alias address from the info area
@@ -117,7 +117,7 @@ int zaliasRemoveAll(long long *ifltab, const char* pathname)
 	zero = 0;
 	status = zput(ifltab, infoAddress, (int *)&zero, 1, 2);
 	if (zisError(status)) {
-		zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+		zlockActive(ifltab, LOCKING_LEVEL_LOW, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zaliasRemove_ID);
 	}
 	infoAddress = ifltab[zdssKeys.kaddInfoLastPath];
@@ -126,7 +126,7 @@ int zaliasRemoveAll(long long *ifltab, const char* pathname)
 	while (1) {
 		status = zget(ifltab, aliasAddress, (int *)binAlias, 4, 2);
 		if (zisError(status)) {
-			zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+			zlockActive(ifltab, LOCKING_LEVEL_LOW, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zaliasRemove_ID);
 		}
 		if (binAlias[0] == DSS_INFO_FLAG) {
@@ -137,7 +137,7 @@ int zaliasRemoveAll(long long *ifltab, const char* pathname)
 		//  double check that we are still walking down alias bins
 		if (binAlias[zdssBinKeys.kbinStatus] != REC_STATUS_ALIAS) {
 			//  Uh-oh, shouldn't have this number - needs to be a "2"!
-			zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+			zlockActive(ifltab, LOCKING_LEVEL_LOW, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 			return zerrorProcessing(ifltab, DSS_FUNCTION_zaliasUtil_ID,
 								zdssErrorCodes.RECORD_DOES_NOT_EXIST, 0,
 								0, zdssErrorSeverity.WARNING, pathname, "");
@@ -147,7 +147,7 @@ int zaliasRemoveAll(long long *ifltab, const char* pathname)
 		address = aliasAddress + zdssBinKeys.kbinStatus;
 		status = zput(ifltab, address, (int *)&longStatus, 1, 2);
 		if (zisError(status)) {
-			zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+			zlockActive(ifltab, LOCKING_LEVEL_LOW, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zaliasRemove_ID);
 		}
 		//  Need to mark deleted and number chars different, so that bin spot will not be reused
@@ -155,7 +155,7 @@ int zaliasRemoveAll(long long *ifltab, const char* pathname)
 		address = aliasAddress + zdssBinKeys.kbinPathLen;
 		status = zget(ifltab, address, (int *)&lnumber, 1, 2);
 		if (zisError(status)) {
-			zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+			zlockActive(ifltab, LOCKING_LEVEL_LOW, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zaliasRemove_ID);
 		}
 		i8toi4(lnumber, &numberChars, &pathnameSize);
@@ -164,7 +164,7 @@ int zaliasRemoveAll(long long *ifltab, const char* pathname)
 		lnumber = i4toi8(numberChars, pathnameSize);
 		status = zput(ifltab, address, (int *)&lnumber, 1, 2);
 		if (zisError(status)) {
-			zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+			zlockActive(ifltab, LOCKING_LEVEL_LOW, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zaliasRemove_ID);
 		}
 		numberAliases++;
@@ -181,7 +181,7 @@ int zaliasRemoveAll(long long *ifltab, const char* pathname)
 	fileHeader[zdssFileKeys.kcatSortStatus] = 3;
 
 	status = zpermWrite(ifltab);
-	zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+	zlockActive(ifltab, LOCKING_LEVEL_LOW, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 	if (zisError(status)) {
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zaliasRemove_ID);
 	}
-- 
2.43.0


From a0ca0579357b6e2bae3e0161e1f02376298a89e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:49 +0000
Subject: [PATCH 090/103] fix: a record renamed to a name used before took over
 that record's write time in the catalog

---
 heclib/heclib_c/src/Public/zrename.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/heclib/heclib_c/src/Public/zrename.c b/heclib/heclib_c/src/Public/zrename.c
index 26bd19b..2de8d88 100644
--- a/heclib/heclib_c/src/Public/zrename.c
+++ b/heclib/heclib_c/src/Public/zrename.c
@@ -60,6 +60,7 @@ static int renameLocked(long long *ifltab, const char* oldPathname, const char*
 	long long *info;
 	long long *infoOld;
 	long long infoAddress;
+	long long lastWriteTime;
 	long long address;
 	long long binStatus;
 	long long eofWord;
@@ -255,6 +256,8 @@ static int renameLocked(long long *ifltab, const char* oldPathname, const char*
 	//  Save the first and last date from the old info area
 	ifltab[zdssKeys.kdataFirstDate] = info[zdssInfoKeys.kinfoFirstDate];
 	ifltab[zdssKeys.kdataLastDate] = info[zdssInfoKeys.kinfoLastDate];
+	//  and the time it was last written, as looking for the new pathname may load another's
+	lastWriteTime = ifltab[zdssKeys.kbinLastWrite];
 
 	//  Now load the new pathname hash
 	status = zcheckInternal(ifltab, newPath, 1);
@@ -263,6 +266,7 @@ static int renameLocked(long long *ifltab, const char* oldPathname, const char*
 		free(newPath);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zrename_ID);
 	}
+	ifltab[zdssKeys.kbinLastWrite] = lastWriteTime;
 	//  If this pathname's hash code was not in the hash table
 	//  create a new bin, and save that bin's address in the table
 	if (ifltab[zdssKeys.khashTableBinAdd] == 0) {
-- 
2.43.0


From 4fcbf2993cb0b5ebb7e6979e223c72901b22a157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:33 +0000
Subject: [PATCH 091/103] fix: a file stored in a record was followed by up to
 three bytes of uninitialised memory

---
 heclib/heclib_c/src/Public/zbinaryStoreFromFile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Public/zbinaryStoreFromFile.c b/heclib/heclib_c/src/Public/zbinaryStoreFromFile.c
index c988667..6bf9438 100644
--- a/heclib/heclib_c/src/Public/zbinaryStoreFromFile.c
+++ b/heclib/heclib_c/src/Public/zbinaryStoreFromFile.c
@@ -101,7 +101,7 @@ int zbinaryStoreFromFile(long long *ifltab, const char *pathname, const char *fi
 	transferStruct->numberValues = transferStruct->values1Number;
 	transferStruct->dataType = 600;   ///  CHANGE ME!!!!!
 
-	transferStruct->values1 = (int *)malloc((size_t)transferStruct->values1Number * 4);
+	transferStruct->values1 = (int *)calloc((size_t)transferStruct->values1Number, 4);
 
 	status = readBytes(ihandle, (char *)transferStruct->values1, transferStruct->logicalNumberValues);
 	if (status < 0) {
-- 
2.43.0


From 908b17204b01453889b4cae2ea12424efbf9a3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:01 +0000
Subject: [PATCH 092/103] fix: a handle whose opening failed looked open, and
 using it crashed

---
 heclib/heclib_c/src/Internal/zopenInternal.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/heclib/heclib_c/src/Internal/zopenInternal.c b/heclib/heclib_c/src/Internal/zopenInternal.c
index 4ea593d..4fe9a90 100644
--- a/heclib/heclib_c/src/Internal/zopenInternal.c
+++ b/heclib/heclib_c/src/Internal/zopenInternal.c
@@ -88,8 +88,28 @@
 **/
 
 
+ static int openDssFile(long long *ifltab, const char *dssFilename, int access, int maxExpectedPathnames,
+	 int hashSize, int binSize, int boolReopen);
+
  int zopenInternal(long long *ifltab, const char *dssFilename, int access, int maxExpectedPathnames,
 	 int hashSize, int binSize, int boolReopen)
+ {
+	 int i;
+	 int status;
+
+	 status = openDssFile(ifltab, dssFilename, access, maxExpectedPathnames, hashSize, binSize, boolReopen);
+	 if (status < STATUS_OKAY) {
+		 //  The file is not open; do not leave a table that looks as if it were
+		 zmemoryFree(ifltab);
+		 for (i = 0; i < 50; i++) {
+			 ifltab[i] = 0;
+		 }
+	 }
+	 return status;
+ }
+
+ static int openDssFile(long long *ifltab, const char *dssFilename, int access, int maxExpectedPathnames,
+	 int hashSize, int binSize, int boolReopen)
  {
 	 int ihandle;
 	 int status;
-- 
2.43.0


From bc1aa14c78806f85b019cb73d4b6d8d693235740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:27 +0000
Subject: [PATCH 093/103] fix: a refused partial store of paired data kept its
 memory

---
 heclib/heclib_c/src/Public/zpdStore.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/heclib/heclib_c/src/Public/zpdStore.c b/heclib/heclib_c/src/Public/zpdStore.c
index 7165166..4164773 100644
--- a/heclib/heclib_c/src/Public/zpdStore.c
+++ b/heclib/heclib_c/src/Public/zpdStore.c
@@ -912,12 +912,14 @@ int zpdStore(long long *ifltab, zStructPairedData *pds, int storageFlag)
 		//  Lock the file at a high level
 		status =  zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_ON, LOCKING_FLUSH_ON);
 		if (zisError(status)) {
+			zstructFree(ztransfer);
 			FREE_TEMPS_AND_RESTORE
 			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zpdStore_ID);
 		}
 		status = zreadInternal(ifltab, ztransfer, bufferControl, buffer, 0);
 		if (zisError(status)) {
 			zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
+			zstructFree(ztransfer);
 			FREE_TEMPS_AND_RESTORE
 			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zpdStore_ID);
 		}
@@ -926,6 +928,7 @@ int zpdStore(long long *ifltab, zStructPairedData *pds, int storageFlag)
 				zdssErrorCodes.WRONG_RECORD_TYPE, DATA_TYPE_PD,
 				(long long)ztransfer->dataType, zdssErrorSeverity.WARNING, ztransfer->pathname, "");
 			zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
+			zstructFree(ztransfer);
 			FREE_TEMPS_AND_RESTORE
 			return status;
 		}
@@ -989,6 +992,7 @@ int zpdStore(long long *ifltab, zStructPairedData *pds, int storageFlag)
 		}
 		if (!ztransfer->values2) {
 			zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
+			zstructFree(ztransfer);
 			FREE_TEMPS_AND_RESTORE
 			return zerrorProcessing(ifltab, DSS_FUNCTION_zpdStore_ID,
 									zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, numberRows, 0,
@@ -1015,6 +1019,7 @@ int zpdStore(long long *ifltab, zStructPairedData *pds, int storageFlag)
 				status = zgetBuff(ifltab, address, ztransfer->values2, 2, 1, BUFF_READ, bufferControl, buffer);
 				if (zisError(status)) {
 					zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
+					zstructFree(ztransfer);
 					FREE_TEMPS_AND_RESTORE
 					return zerrorUpdate(ifltab, status, DSS_FUNCTION_zreadInternal_ID);
 				}
@@ -1048,6 +1053,7 @@ int zpdStore(long long *ifltab, zStructPairedData *pds, int storageFlag)
 			}
 			else {
 				zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
+				zstructFree(ztransfer);
 				FREE_TEMPS_AND_RESTORE
 				return zerrorProcessing(ifltab, DSS_FUNCTION_zpdStore_ID,
 									zdssErrorCodes.NO_DATA_GIVEN, 0, 0,
@@ -1136,6 +1142,7 @@ int zpdStore(long long *ifltab, zStructPairedData *pds, int storageFlag)
 				status = zreadInternal(ifltab, ztransfer, bufferControl, buffer, 0);
 				if (zisError(status)) {
 					zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
+					zstructFree(ztransfer);
 					FREE_TEMPS_AND_RESTORE
 					return zerrorUpdate(ifltab, status, DSS_FUNCTION_zpdStore_ID);
 				}
@@ -1144,6 +1151,7 @@ int zpdStore(long long *ifltab, zStructPairedData *pds, int storageFlag)
 						zdssErrorCodes.WRONG_RECORD_TYPE, DATA_TYPE_PD,
 						(long long)ztransfer->dataType, zdssErrorSeverity.WARNING, ztransfer->pathname, "");
 					zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
+					zstructFree(ztransfer);
 					FREE_TEMPS_AND_RESTORE
 					return status;
 				}
@@ -1168,6 +1176,7 @@ int zpdStore(long long *ifltab, zStructPairedData *pds, int storageFlag)
 		}
 		zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 			if (zisError(status)) {
+			zstructFree(ztransfer);
 			FREE_TEMPS_AND_RESTORE
 			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zwriteInternal_ID);
 		}
-- 
2.43.0


From 23ae5740495caa611a827689abc53897d2d056e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:27 +0000
Subject: [PATCH 094/103] fix: the user header of an array struct was never
 freed

---
 heclib/heclib_c/src/Public/zstructFree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Public/zstructFree.c b/heclib/heclib_c/src/Public/zstructFree.c
index 63b0cc7..da051f5 100644
--- a/heclib/heclib_c/src/Public/zstructFree.c
+++ b/heclib/heclib_c/src/Public/zstructFree.c
@@ -310,7 +310,7 @@ void zarrayStructFree(zStructArray *zstruct)
 	if (zstruct == 0) return;
 
 	if ((zstruct->pathname) && (zstruct->allocated[zSTRUCT_pathname])) free(zstruct->pathname);
-
+	if ((zstruct->userHeader) && (zstruct->allocated[zSTRUCT_userHeader])) free(zstruct->userHeader);
 	if ((zstruct->intArray) && (zstruct->allocated[zSTRUCT_ARRAY_INT])) free(zstruct->intArray);
 	if ((zstruct->floatArray) && (zstruct->allocated[zSTRUCT_ARRAY_FLOAT])) free(zstruct->floatArray);
 	if ((zstruct->doubleArray) && (zstruct->allocated[zSTRUCT_ARRAY_DOUBLE])) free(zstruct->doubleArray);
-- 
2.43.0


From 848a3f6b1c837b34cd2243ed33da34f9766b9f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:27 +0000
Subject: [PATCH 095/103] fix: storing or retrieving a TIN kept its memory

---
 heclib/heclib_c/src/Public/zspatialTinRetrieve.c | 1 +
 heclib/heclib_c/src/Public/zspatialTinStore.c    | 6 ++++++
 2 files changed, 7 insertions(+)

diff --git a/heclib/heclib_c/src/Public/zspatialTinRetrieve.c b/heclib/heclib_c/src/Public/zspatialTinRetrieve.c
index 335a1bc..42f87a3 100644
--- a/heclib/heclib_c/src/Public/zspatialTinRetrieve.c
+++ b/heclib/heclib_c/src/Public/zspatialTinRetrieve.c
@@ -237,6 +237,7 @@ int zspatialTinRetrieve(long long *ifltab, zStructSpatialTin *tinStruct, int boo
 		zmessageDebugInt(ifltab, DSS_FUNCTION_zspatialTinRetrieve_ID, "Exit; status:  ", status);
 	}
 
+	zstructFree(ztransfer);
 	return status;
 }
 
diff --git a/heclib/heclib_c/src/Public/zspatialTinStore.c b/heclib/heclib_c/src/Public/zspatialTinStore.c
index dd01966..144bd70 100644
--- a/heclib/heclib_c/src/Public/zspatialTinStore.c
+++ b/heclib/heclib_c/src/Public/zspatialTinStore.c
@@ -96,6 +96,7 @@ int zspatialTinStore(long long *ifltab, zStructSpatialTin *tinStruct)
 	//  Header 1, basic info
 	ztransfer->internalHeaderNumber = 12;
 	ztransfer->internalHeader = (int *)calloc(ztransfer->internalHeaderNumber, 4);
+	ztransfer->allocated[zSTRUCT_TRANS_internalHeader] = 1;
 	ztransfer->internalHeaderMode = 1;
 	ztransfer->internalHeader[0] = tinStruct->numberPoints;
 	ztransfer->internalHeader[1] = tinStruct->connectTableLen;
@@ -184,6 +185,7 @@ int zspatialTinStore(long long *ifltab, zStructSpatialTin *tinStruct)
 	str[count++] = '\0';
 	ztransfer->header2Number = numberIntsInBytes((int)total);
 	ztransfer->header2 = (int *)calloc(ztransfer->header2Number + 2, 4);
+	ztransfer->allocated[zSTRUCT_TRANS_header2] = 1;
 	ztransfer->header2Mode = 1;
 	//  Need to be sure to copy char into in array, not cast and assign to header
 	charInt (str, ztransfer->header2, (int)total, (ztransfer->header2Number * 4), 1, 1, 0);
@@ -192,6 +194,7 @@ int zspatialTinStore(long long *ifltab, zStructSpatialTin *tinStruct)
 	//  Labels (char) array
 	ztransfer->userHeaderNumber = numberIntsInBytes(tinStruct->pointLabelLen);
 	ztransfer->userHeader = (int *)calloc(ztransfer->userHeaderNumber + 2, 4);
+	ztransfer->allocated[zSTRUCT_userHeader] = 1;
 	ztransfer->header2Mode = 1;
 	//  Need to be sure to copy char into in array, not cast and assign to header
 	 if (tinStruct->pointLabel && (tinStruct->pointLabelLen > 0)) {
@@ -201,6 +204,7 @@ int zspatialTinStore(long long *ifltab, zStructSpatialTin *tinStruct)
 	 //  Values 1, x, y, value
 	 ztransfer->values1Number = 3 * tinStruct->numberPoints;
 	 ztransfer->values1 = (int *)calloc(ztransfer->values1Number, 4);
+	 ztransfer->allocated[zSTRUCT_TRANS_values1] = 1;
 	 ztransfer->values1Mode = 1;
 	 convertDataArray((int *)tinStruct->xCoordinate, &ztransfer->values1[0], tinStruct->numberPoints, 1, 1);
 	 convertDataArray((int *)tinStruct->yCoordinate, &ztransfer->values1[tinStruct->numberPoints], tinStruct->numberPoints, 1, 1);
@@ -209,6 +213,7 @@ int zspatialTinStore(long long *ifltab, zStructSpatialTin *tinStruct)
 	  //  Values 2, other arrays
 	 ztransfer->values2Number = 3 * tinStruct->numberPoints;
 	 ztransfer->values2 = (int *)calloc(ztransfer->values2Number, 4);
+	 ztransfer->allocated[zSTRUCT_TRANS_values2] = 1;
 	 ztransfer->values2Mode = 1;
 	 convertDataArray((int *)tinStruct->pointType, &ztransfer->values2[0], tinStruct->numberPoints, 1, 1);
 	 convertDataArray((int *)tinStruct->numberConnections, &ztransfer->values2[(tinStruct->numberPoints * 2)], tinStruct->numberPoints, 1, 1);
@@ -217,6 +222,7 @@ int zspatialTinStore(long long *ifltab, zStructSpatialTin *tinStruct)
 	 if (tinStruct->connectTableLen > 0) {
 		 ztransfer->values3Number = tinStruct->connectTableLen;
 		 ztransfer->values3 = (int *)calloc(ztransfer->values3Number, 4);
+		 ztransfer->allocated[zSTRUCT_TRANS_values3] = 1;
 		 ztransfer->values3Mode = 1;
 		 convertDataArray((int *)tinStruct->connectTo, ztransfer->values3, tinStruct->connectTableLen, 1, 1);
 	 }
-- 
2.43.0


From 03674b9cfb95d4cfbe08405b2dae4a1f995ac578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:27 +0000
Subject: [PATCH 096/103] fix: storing text from a file kept its memory

---
 heclib/heclib_c/src/Public/ztextStoreFromFile.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/heclib/heclib_c/src/Public/ztextStoreFromFile.c b/heclib/heclib_c/src/Public/ztextStoreFromFile.c
index c0cf50e..caac48b 100644
--- a/heclib/heclib_c/src/Public/ztextStoreFromFile.c
+++ b/heclib/heclib_c/src/Public/ztextStoreFromFile.c
@@ -90,6 +90,7 @@ int ztextStoreFromFile(long long *ifltab, const char *pathname, const char *file
 	}
 #endif
 	if (status != 0) {
+		zstructFree(textStruct);
 		return zerrorProcessing(ifltab, DSS_FUNCTION_ztextStore_ID,
 					zdssErrorCodes.UNABLE_TO_ACCESS_FILE, status, 0,
 					zdssErrorSeverity.WARNING, pathname, filename);
@@ -104,11 +105,14 @@ int ztextStoreFromFile(long long *ifltab, const char *pathname, const char *file
 	//  Allocate space
 	textStruct->textTable = (char *)malloc((size_t)numberCharacters);
 	if (!textStruct->textTable) {
+		fclose(textFileFP);
+		zstructFree(textStruct);
 		return zerrorProcessing(ifltab, DSS_FUNCTION_ztextStore_ID,
 								zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, numberCharacters, 0,
 								zdssErrorSeverity.MEMORY_ERROR,
 								pathname, "Allocating textTable");
 	}
+	textStruct->allocated[zSTRUCT_TX_textTable] = 1;
 	textStruct->numberRows = numberLines;
 	textStruct->numberColumns = 1;
 	textStruct->numberTableChars = numberCharacters;
-- 
2.43.0


From 4b9fc728159756979a4eaad354107ab1c6c05385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:40 +0000
Subject: [PATCH 097/103] fix: a copy refused by a read-only file kept the
 record in memory

---
 heclib/heclib_c/src/Internal/zcopyRecordInternal.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/heclib/heclib_c/src/Internal/zcopyRecordInternal.c b/heclib/heclib_c/src/Internal/zcopyRecordInternal.c
index 4685e94..453f2ec 100644
--- a/heclib/heclib_c/src/Internal/zcopyRecordInternal.c
+++ b/heclib/heclib_c/src/Internal/zcopyRecordInternal.c
@@ -241,6 +241,7 @@ int zcopyRecordInternal(long long *ifltabFrom, long long *ifltabTo, const char *
 	free(ztransfer->pathname);
 	ztransfer->pathname = mallocAndCopyPath(pathnameTo);
 	if (!ztransfer->pathname) {
+		zstructFree(ztransfer);
 		return zerrorProcessing(ifltabFrom, DSS_FUNCTION_zcopyRecord_ID,
 								zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, 0, 0,
 								zdssErrorSeverity.MEMORY_ERROR,
@@ -252,6 +253,7 @@ int zcopyRecordInternal(long long *ifltabFrom, long long *ifltabTo, const char *
 	if (!boolDuplicate) {
 		status = zlockActive(ifltabTo, LOCKING_LEVEL_MID, LOCKING_LOCK_ON, LOCKING_FLUSH_ON);
 		if (zisError(status)) {
+			zstructFree(ztransfer);
 			return zerrorEncodeHigh(status, DSS_FUNCTION_zcopyRecord_ID);
 		}
 		//  Write the dataset to the file
@@ -266,6 +268,7 @@ int zcopyRecordInternal(long long *ifltabFrom, long long *ifltabTo, const char *
 	else {
 		status = zlockActive(ifltabFrom, LOCKING_LEVEL_MID, LOCKING_LOCK_ON, LOCKING_FLUSH_ON);
 		if (zisError(status)) {
+			zstructFree(ztransfer);
 			return zerrorEncodeHigh(status, DSS_FUNCTION_zcopyRecord_ID);
 		}
 		//  Write the dataset to the file
-- 
2.43.0


From 7a196b20375103cf932cf4d84cfde3da44619a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:24 +0000
Subject: [PATCH 098/103] fix: a catalogue that failed half way kept the names
 found so far

---
 heclib/heclib_c/src/Internal/zcatalogInternal.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Internal/zcatalogInternal.c b/heclib/heclib_c/src/Internal/zcatalogInternal.c
index 4de941c..772eeca 100644
--- a/heclib/heclib_c/src/Internal/zcatalogInternal.c
+++ b/heclib/heclib_c/src/Internal/zcatalogInternal.c
@@ -546,7 +546,8 @@ int zcatalogInternal (long long *ifltab, const char *pathWithWild, zStructCatalo
 	}
 	if (catStruct) {
 		catStruct->numberPathnames = countTotal;
-		catStruct->listSize = countTotal;
+		//  On an error, listSize is still needed to free the names found so far
+		if (countTotal >= 0) catStruct->listSize = countTotal;
 	}
     return countTotal;
 }
-- 
2.43.0


From 84aab262359428089f771831558b34f1b4b6f6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:24 +0000
Subject: [PATCH 099/103] fix: a retrieval whose date range could not be read
 kept its pathname

---
 heclib/heclib_c/src/Internal/ztsProcessTimes.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/heclib/heclib_c/src/Internal/ztsProcessTimes.c b/heclib/heclib_c/src/Internal/ztsProcessTimes.c
index 693b15a..87e417f 100644
--- a/heclib/heclib_c/src/Internal/ztsProcessTimes.c
+++ b/heclib/heclib_c/src/Internal/ztsProcessTimes.c
@@ -236,6 +236,7 @@ int ztsProcessTimes(long long *ifltab, zStructTimeSeries *tss, int boolStore)
 	if (!boolStore &&  ( tss->boolRetrieveAllTimes || needPeriodOrRecord) ) {
 		status = ztsGetDateRange(ifltab, path, 1, &tss->startJulianDate, &tss->endJulianDate);
 		if (zisError(status)) {
+			free(path);
 			return zerrorUpdate(ifltab, status, DSS_FUNCTION_ztsProcessTimes_ID);
 		}
 		if (status == STATUS_RECORD_FOUND) {
@@ -304,6 +305,7 @@ int ztsProcessTimes(long long *ifltab, zStructTimeSeries *tss, int boolStore)
 			if (!timeWindowDefined) {
 				status = ztsGetDateRange(ifltab, path, 1, &tss->timeWindow->startJulian, &tss->timeWindow->endJulian);
 				if (zisError(status)) {
+					free(path);
 					return zerrorUpdate(ifltab, status, DSS_FUNCTION_ztsProcessTimes_ID);
 				}
 				if (status == STATUS_OKAY) {
-- 
2.43.0


From 1ae6c346700909e7b671e3c01506cd9fb72b2684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:51 +0000
Subject: [PATCH 100/103] fix: retrieving a profile series that cannot be read
 kept its depths

---
 heclib/heclib_c/src/Internal/ztsRetrieveIrreg7.c | 2 ++
 heclib/heclib_c/src/Internal/ztsRetrieveReg7.c   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/heclib/heclib_c/src/Internal/ztsRetrieveIrreg7.c b/heclib/heclib_c/src/Internal/ztsRetrieveIrreg7.c
index 3972b4c..6efbacc 100644
--- a/heclib/heclib_c/src/Internal/ztsRetrieveIrreg7.c
+++ b/heclib/heclib_c/src/Internal/ztsRetrieveIrreg7.c
@@ -563,6 +563,7 @@ int ztsRetrieveIrreg7(long long *ifltab, zStructTimeSeries *tss,
 			boolRetrievePrevious, boolRetrieveSubsequent);
 
 		if (zisError(status)) {
+			if (depthValues) free(depthValues);
 			return zerrorUpdate(ifltab, status, DSS_FUNCTION_ztsRetrieveIrreg_ID);
 		}
 		if (status == STATUS_RECORD_FOUND) {
@@ -589,6 +590,7 @@ int ztsRetrieveIrreg7(long long *ifltab, zStructTimeSeries *tss,
 					//  Profile data - do we need to convert?
 					if (depthValuesNumber < depthValuesArraySize) {
 						//  error out - FIX ME
+						free(depthValues);
 						return STATUS_NOT_OKAY;
 					}
 					tss->profileDepthsNumber = internalHeader[INT_HEAD_profileDepthsNumber];
diff --git a/heclib/heclib_c/src/Internal/ztsRetrieveReg7.c b/heclib/heclib_c/src/Internal/ztsRetrieveReg7.c
index 5684f4c..4fb9552 100644
--- a/heclib/heclib_c/src/Internal/ztsRetrieveReg7.c
+++ b/heclib/heclib_c/src/Internal/ztsRetrieveReg7.c
@@ -580,6 +580,8 @@ int ztsRetrieveReg7(long long *ifltab, zStructTimeSeries *tss,
 				if (boolProfileRecord) {
 					//  Profile data - do we need to convert?
 					if (profileDepthsNumberRead < profileDepthsArraySize) {
+						if (buffer) free(buffer);
+						if (profileDepths) free(profileDepths);
 						return zerrorProcessing(ifltab, DSS_FUNCTION_ztsRetrieveReg_ID,
 													zdssErrorCodes.DIFFERENT_PROFILE_NUMBER, profileDepthsNumberRead,
 													(long long)profileDepthsArraySize,
-- 
2.43.0


From a6a97eeb170f0b57b63d37ad7f86096ae9d4aaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:21 +0000
Subject: [PATCH 101/103] fix: integer notes stored over text notes of an
 irregular series failed an assertion

---
 heclib/heclib_c/src/Internal/ztsIrregStoreBlock.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Internal/ztsIrregStoreBlock.c b/heclib/heclib_c/src/Internal/ztsIrregStoreBlock.c
index 4906e50..f51f9fe 100644
--- a/heclib/heclib_c/src/Internal/ztsIrregStoreBlock.c
+++ b/heclib/heclib_c/src/Internal/ztsIrregStoreBlock.c
@@ -455,7 +455,9 @@ int ztsIrregStoreBlock(long long *ifltab, zStructTimeSeries *tss, const char *pa
 				//  If we are storing character notes, so we need to allocate enough space
 				//  to both read in cnotes on disk and to add our notes on.
 				//  Get the amount of space used on disk
-				if (internalHeaderRead[INT_HEAD_cnotesLength] > 0) {
+				//  (A record has either character or integer notes: when we are storing integer
+				//  notes, they take the place of character notes.)
+				if ((internalHeaderRead[INT_HEAD_cnotesLength] > 0) && (inoteElementSize == 0)) {
 					cnotesReadSize = internalHeaderRead[INT_HEAD_cnotesLength];
 					cnotesRead = (char *)calloc((size_t)cnotesReadSize, CHAR_SIZE);
 					if (!cnotesRead) {
-- 
2.43.0


From 1e277b2dd33ed5b25e9db5661cf21d6e22ed5edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:44:53 +0000
Subject: [PATCH 102/103] fix: a series stored over a profile series, or with
 other numbers of depths, failed an assertion

---
 heclib/heclib_c/src/Internal/ztsIrregStoreBlock.c | 6 ++++++
 heclib/heclib_c/src/Internal/ztsRegStoreBlock.c   | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/heclib/heclib_c/src/Internal/ztsIrregStoreBlock.c b/heclib/heclib_c/src/Internal/ztsIrregStoreBlock.c
index f51f9fe..e2435ba 100644
--- a/heclib/heclib_c/src/Internal/ztsIrregStoreBlock.c
+++ b/heclib/heclib_c/src/Internal/ztsIrregStoreBlock.c
@@ -387,6 +387,12 @@ int ztsIrregStoreBlock(long long *ifltab, zStructTimeSeries *tss, const char *pa
 			if (zisError(status)) {
 				return zerrorUpdate(ifltab, status, DSS_FUNCTION_zbinUpdate_ID);
 			}
+			//  Both have to be profiles with the same number of depths, or neither
+			if (internalHeaderRead[INT_HEAD_profileDepthsNumber] != profileDepthsNumber) {
+				return zerrorProcessing(ifltab, DSS_FUNCTION_ztsIrregStoreBlock_ID,
+					zdssErrorCodes.DIFFERENT_PROFILE_NUMBER, profileDepthsNumber,
+					(long long)internalHeaderRead[INT_HEAD_profileDepthsNumber], zdssErrorSeverity.WRITE_ERROR, pathname, "");
+			}
 
 			logicalNumberValues = (int)info[zdssInfoKeys.kinfoLogicalNumber];
 			if (logicalNumberValues < 1) {
diff --git a/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c b/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c
index 8970ece..22598b4 100644
--- a/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c
+++ b/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c
@@ -378,6 +378,12 @@ int ztsRegStoreBlock(long long *ifltab, zStructTimeSeries *tss, const char *path
 			if (bigEndian()) {
 				zswitchInts(internalHeaderRead, INT_HEAD_cnotesLength + 1);
 			}
+			//  Both have to be profiles with the same number of depths, or neither
+			if (internalHeaderRead[INT_HEAD_profileDepthsNumber] != profileDepthsNumber) {
+				return zerrorProcessing(ifltab, DSS_FUNCTION_ztsRegStoreBlock_ID,
+					zdssErrorCodes.DIFFERENT_PROFILE_NUMBER, profileDepthsNumber,
+					(long long)internalHeaderRead[INT_HEAD_profileDepthsNumber], zdssErrorSeverity.WRITE_ERROR, pathname, "");
+			}
 			if (info[zdssInfoKeys.kinfoLogicalNumber] < 1) {
 				//  Very rare (not storing data, but quality or notes)
 				boolReadBlock = 0;
-- 
2.43.0


From c6073d8639f06039b9b688b489f79fc51abe3b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:46:13 +0000
Subject: [PATCH 103/103] fix: integer notes stored over text notes of a
 regular series failed an assertion

---
 heclib/heclib_c/src/Internal/ztsRegStoreBlock.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c b/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c
index 22598b4..26ddb6c 100644
--- a/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c
+++ b/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c
@@ -474,7 +474,9 @@ int ztsRegStoreBlock(long long *ifltab, zStructTimeSeries *tss, const char *path
 			notesRead = 0;
 		}
 		//  Get the amount of space used on disk				
-		if (boolFound && (internalHeaderRead[INT_HEAD_cnotesLength] > 0)) {
+		//  (A record has either character or integer notes: when we are storing integer
+		//  notes, they take the place of character notes.)
+		if (boolFound && (inoteElementSize == 0) && (internalHeaderRead[INT_HEAD_cnotesLength] > 0)) {
 			cnotesReadSize = internalHeaderRead[INT_HEAD_cnotesLength] + internalHeaderRead[INT_HEAD_blockStartPosition] + 
 				(numberInBlock - internalHeaderRead[INT_HEAD_blockEndPosition]); 										
 			cnotesRead = (char *)calloc((size_t)cnotesReadSize, CHAR_SIZE);
-- 
2.43.0

