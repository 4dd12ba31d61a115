From 4981ef91e0cedcde702c47a552ca4274eae7cfec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:17 +0000
Subject: [PATCH 01/75] fix: an updated record with odd sized headers could run
 into the next record

The room a record has was compared with the room needed in ints, although
each array is rounded up to long words on disk.
---
 heclib/heclib_c/src/Internal/zwriteExisting.c | 23 ++++++++++---------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zwriteExisting.c b/heclib/heclib_c/src/Internal/zwriteExisting.c
index b51104d..f3bd25f 100644
--- a/heclib/heclib_c/src/Internal/zwriteExisting.c
+++ b/heclib/heclib_c/src/Internal/zwriteExisting.c
@@ -251,17 +251,18 @@ int zwriteExisting(long long *ifltab, zStructTransfer* ztransfer,
 	if ((info[zdssInfoKeys.kinfoValues3Number] == 0) && (ztransfer->values3Number > 0))				fileHeader[zdssFileKeys.knumberDataArea3]++;
 	numberInfo = zdssVals.infoSize + numberLongsInBytes((int)ifltab[zdssKeys.klenLastPath]);
 
-	//  Compute original and new record sizes.
-	originalSize =
-		(int)info[zdssInfoKeys.kinfoInternalHeadNumber] +
-		(int)info[zdssInfoKeys.kinfoHeader2Number] +
-		(int)info[zdssInfoKeys.kinfoUserHeadNumber] +
-		(int)info[zdssInfoKeys.kinfoAllocatedSize];
-	newSize =
-		ztransfer->internalHeaderNumber +
-		ztransfer->header2Number +
-		ztransfer->userHeaderNumber +
-		ztransfer->totalAllocatedSize;
+	//  Compute original and new record sizes, in ints.
+	//  Each array starts on a long word boundary, so an odd number of ints takes one more
+	originalSize = 2 * (
+		numberLongsInInts((int)info[zdssInfoKeys.kinfoInternalHeadNumber]) +
+		numberLongsInInts((int)info[zdssInfoKeys.kinfoHeader2Number]) +
+		numberLongsInInts((int)info[zdssInfoKeys.kinfoUserHeadNumber]) +
+		numberLongsInInts((int)info[zdssInfoKeys.kinfoAllocatedSize]));
+	newSize = 2 * (
+		numberLongsInInts(ztransfer->internalHeaderNumber) +
+		numberLongsInInts(ztransfer->header2Number) +
+		numberLongsInInts(ztransfer->userHeaderNumber) +
+		numberLongsInInts(ztransfer->totalAllocatedSize));
 
 
 	if (newSize > originalSize) {
-- 
2.43.0


From 73e102f9e75f6bbf02c0359a600b6a9d228c8e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:17 +0000
Subject: [PATCH 02/75] fix: expanding a record released the space of the
 records behind it

The released amount was given in ints where longs are expected.
---
 heclib/heclib_c/src/Internal/zwriteExisting.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zwriteExisting.c b/heclib/heclib_c/src/Internal/zwriteExisting.c
index f3bd25f..e925c8d 100644
--- a/heclib/heclib_c/src/Internal/zwriteExisting.c
+++ b/heclib/heclib_c/src/Internal/zwriteExisting.c
@@ -287,13 +287,15 @@ int zwriteExisting(long long *ifltab, zStructTransfer* ztransfer,
 
 		//  Check that the old info and data areas are contiguous.  If so, we can reclaim their space
 		//  A rename op may have moved the info block
-		if ((ifltab[zdssKeys.kaddInfoLastPath] + (long long)(originalSize + numberInfo)) ==
-			(info[zdssInfoKeys.kinfoValues1Address] + info[zdssInfoKeys.kinfoAllocatedSize])) {
-			zreleaseFileSpace(ifltab, ifltab[zdssKeys.kaddInfoLastPath], (originalSize + numberInfo));
+		//  (addresses and released space are in longs)
+		longSize = numberInfo + numberLongsInInts(originalSize);
+		if ((ifltab[zdssKeys.kaddInfoLastPath] + (long long)longSize) ==
+			(info[zdssInfoKeys.kinfoValues1Address] + (long long)numberLongsInInts((int)info[zdssInfoKeys.kinfoAllocatedSize]))) {
+			zreleaseFileSpace(ifltab, ifltab[zdssKeys.kaddInfoLastPath], longSize);
 		}
 		else {
 			//  this would have been done in release space
-			fileHeader[zdssFileKeys.kdead] += (long long)(originalSize) + numberInfo;
+			fileHeader[zdssFileKeys.kdead] += (long long)longSize;
 		}
 
 		//  Update the version and expansionNumber values
-- 
2.43.0


From 07de3aadbcec8371252fb4ae31a336e852b30d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:17 +0000
Subject: [PATCH 03/75] fix: deleting a record that is not contiguous released
 the space of other records

---
 heclib/heclib_c/src/Internal/zdeleteInternal.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zdeleteInternal.c b/heclib/heclib_c/src/Internal/zdeleteInternal.c
index 9d08a8b..a579416 100644
--- a/heclib/heclib_c/src/Internal/zdeleteInternal.c
+++ b/heclib/heclib_c/src/Internal/zdeleteInternal.c
@@ -215,8 +215,8 @@ int zdeleteInternal(long long *ifltab, const char *pathname, int boolUndelete)
 				}
 				else {
 					//  Shouldn't have this happen
-					//fileHeader[zdssFileKeys.kdead] += releasedAmount;
-					zreleaseFileSpace(ifltab, ifltab[zdssKeys.kaddInfoLastPath], releasedAmount);
+					//  (e.g., a rename moved the info block; what follows it is not ours)
+					fileHeader[zdssFileKeys.kdead] += releasedAmount;
 				}
 			}
 			//  Decrement counters
-- 
2.43.0


From f673b5de52307e79a94e73f090148ec1d2b3adaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:17 +0000
Subject: [PATCH 04/75] fix: the catalog ignored the requested range of record
 types

---
 heclib/heclib_c/src/Internal/zcatalogInternal.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/heclib/heclib_c/src/Internal/zcatalogInternal.c b/heclib/heclib_c/src/Internal/zcatalogInternal.c
index 6203871..13604b7 100644
--- a/heclib/heclib_c/src/Internal/zcatalogInternal.c
+++ b/heclib/heclib_c/src/Internal/zcatalogInternal.c
@@ -341,6 +341,9 @@ int zcatalogInternal (long long *ifltab, const char *pathWithWild, zStructCatalo
 								}
 							}
 						}
+						else {
+							boolFound = 0;
+						}
 					}
 					//  If it is a deleted record, be sure the info area is still there
 					if (boolFound && (statusWanted == REC_STATUS_DELETED) && (ifltab[zdssKeys.kreclaimLevel] > RECLAIM_NONE)) {
-- 
2.43.0


From 49a045a77b2536f2504afaf805d484453175ea79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:17 +0000
Subject: [PATCH 05/75] fix: every sorted catalog leaked two file descriptors

---
 heclib/heclib_c/src/Internal/zcatInternalSort.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/heclib/heclib_c/src/Internal/zcatInternalSort.c b/heclib/heclib_c/src/Internal/zcatInternalSort.c
index 986483d..dff0803 100644
--- a/heclib/heclib_c/src/Internal/zcatInternalSort.c
+++ b/heclib/heclib_c/src/Internal/zcatInternalSort.c
@@ -247,6 +247,7 @@ int zcatInternalSort(long long *ifltab, const char *pathWithWild, zStructCatalog
 		free(tempUnsorted);
 		return -1;
 	}
+	close(fileId);
 	tempSorted=(char*)malloc(32*sizeof(char));
 	memset( tempSorted, 0, sizeof(tempSorted));
 	strcpy( tempSorted, "/tmp/cat_sorted-XXXXXX");
@@ -258,6 +259,7 @@ int zcatInternalSort(long long *ifltab, const char *pathWithWild, zStructCatalog
 		free(tempSorted);
 		return -1;
 	}
+	close(fileId);
 #endif
 	if (!tempUnsorted) {
 		if (nonSortedStruct) zstructFree(nonSortedStruct);
-- 
2.43.0


From 21829e4424c6689ba6b85eddb440e0e06bc44887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:17 +0000
Subject: [PATCH 06/75] fix: records in later pathname bins were lost when
 recovered bin space did not fit

A new bin was linked over the remainder of the bin chain.
---
 heclib/heclib_c/src/Internal/zbinUpdate.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/heclib/heclib_c/src/Internal/zbinUpdate.c b/heclib/heclib_c/src/Internal/zbinUpdate.c
index d3af688..f407962 100644
--- a/heclib/heclib_c/src/Internal/zbinUpdate.c
+++ b/heclib/heclib_c/src/Internal/zbinUpdate.c
@@ -232,6 +232,12 @@ int zbinUpdate(long long *ifltab, const char* pathname, long long infoAddress,
 				jsize = zdssBinKeys.kbinSize + pathnameSize;
 				jsize += icount + 1;
 				//  Do we have enough space left in this bin?
+				if ((jsize >= isize) && (pathnameBin[isize-1] != 0)) {
+					//  No, and there are more bins after this one (we came here
+					//  for recovered space that does not fit); go on to those
+					boolUseRecovered = 0;
+					break;
+				}
 				if (jsize >= isize) {
 					//  No, create a new bin
 					if (zmessageLevel(ifltab, MESS_METHOD_WRITE_ID, MESS_LEVEL_INTERNAL_DIAG_1)) {
-- 
2.43.0


From 234f523fece534764f8d7601e6d2ca2952635dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:17 +0000
Subject: [PATCH 07/75] fix: a record with aliases could not be deleted in
 multi-user access

Removing the aliases released the lock before the record was marked.
---
 heclib/heclib_c/src/Internal/zdeleteInternal.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/heclib/heclib_c/src/Internal/zdeleteInternal.c b/heclib/heclib_c/src/Internal/zdeleteInternal.c
index a579416..d9fceed 100644
--- a/heclib/heclib_c/src/Internal/zdeleteInternal.c
+++ b/heclib/heclib_c/src/Internal/zdeleteInternal.c
@@ -59,6 +59,7 @@ int zdeleteInternal(long long *ifltab, const char *pathname, int boolUndelete)
 	long long *info;
 	long long address;
 	long long deleteStatus;
+	long long lockLevel;
 	long long endAddress1;
 	long long endAddress2;
 	long long icurrentTime;
@@ -146,7 +147,13 @@ int zdeleteInternal(long long *ifltab, const char *pathname, int boolUndelete)
 		if (info[zdssInfoKeys.kinfoAliasesBinAddress]) {
 			path = (char *)calloc(MAX_PATHNAME_SIZE, 1);
 			status = zaliasGetPrimary(ifltab, pathname, path, MAX_PATHNAME_SIZE);
+			//  Don't let removing the aliases release our lock
+			lockLevel = ifltab[zdssKeys.klockLevel];
+			if (lockLevel < LOCKING_LEVEL_HIGH) {
+				ifltab[zdssKeys.klockLevel] = LOCKING_LEVEL_HIGH;
+			}
 			status = zaliasRemoveAll(ifltab, pathname);
+			ifltab[zdssKeys.klockLevel] = lockLevel;
 			ifltab[zdssKeys.kaddInfoLastPath] = 0;
 			status = zreadInfo(ifltab, path, readAction);
 			free(path);
-- 
2.43.0


From eb0ab984ca47fab0ca936a616a861c097f024773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:17 +0000
Subject: [PATCH 08/75] fix: squeezing a file with its own bin size overran the
 pathname bin memory

---
 heclib/heclib_c/src/Public/zsqueeze7.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/heclib/heclib_c/src/Public/zsqueeze7.c b/heclib/heclib_c/src/Public/zsqueeze7.c
index 0b76668..9b50446 100644
--- a/heclib/heclib_c/src/Public/zsqueeze7.c
+++ b/heclib/heclib_c/src/Public/zsqueeze7.c
@@ -463,6 +463,12 @@ int zsqueeze7(long long *ifltab, int boolOnlyIfNeeded, int boolInPlace)
 		zpidUpdate(ifltab);
 		zflushToDisk (ifltab, 0) ;
 
+		//  The size of pathname bins may have changed; get memory for the new size
+		if (ifltab[zdssKeys.kpathBin]) {
+			free((long long *)ifltab[zdssKeys.kpathBin] - 2);
+			ifltab[zdssKeys.kpathBin] = 0;
+		}
+
 		//  Check that the copied file is good
 		status = zpermRead(ifltab);
 		if (status != 0) {
-- 
2.43.0


From 2687cfd5fee83efa098e80dede22157badd6ea6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:41 +0000
Subject: [PATCH 09/75] fix: renaming a record that does not exist deleted the
 record at the new pathname

---
 heclib/heclib_c/src/Public/zrename.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/heclib/heclib_c/src/Public/zrename.c b/heclib/heclib_c/src/Public/zrename.c
index 97396aa..a550808 100644
--- a/heclib/heclib_c/src/Public/zrename.c
+++ b/heclib/heclib_c/src/Public/zrename.c
@@ -156,6 +156,21 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 		}
 	}
 	
+	//  Be sure the old pathname does exist (before a record at the new pathname is removed)
+	ifltab[zdssKeys.kaddInfoLastPath] = 0;
+	status = zcheckInternal(ifltab, oldPathname, 1);
+	if (zisError(status)) {
+		free(newPath);
+		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zrename_ID);
+	}
+	if (status != STATUS_RECORD_FOUND) {
+		if (zmessageLevel(ifltab, MESS_METHOD_UTILITY_ID, MESS_LEVEL_GENERAL)) {
+			zmessage2(ifltab, ZRENAME_NOT_EXIST, oldPathname);
+		}
+		free(newPath);
+		return STATUS_RECORD_NOT_FOUND;
+	}
+
 	//  Be sure the new pathname does not already exist
 	ifltab[zdssKeys.kaddInfoLastPath] = 0;
 	status = zcheckInternal(ifltab, newPathname, 1);
-- 
2.43.0


From 9388e42c111fb61654f2d3516ea056f4fa193797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:16 +0000
Subject: [PATCH 10/75] fix: renaming time series used the size of the given
 pathname for the final one

The D and E parts are kept from the old pathname, so the final pathname may be
longer than the given one (its info block was written too short, or the
pathname truncated), and may exist although the given one does not.
---
 heclib/heclib_c/src/Public/zrename.c | 59 +++++++++++++++-------------
 1 file changed, 32 insertions(+), 27 deletions(-)

diff --git a/heclib/heclib_c/src/Public/zrename.c b/heclib/heclib_c/src/Public/zrename.c
index a550808..d04670d 100644
--- a/heclib/heclib_c/src/Public/zrename.c
+++ b/heclib/heclib_c/src/Public/zrename.c
@@ -171,22 +171,50 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 		return STATUS_RECORD_NOT_FOUND;
 	}
 
+	//  If the pathname is time series, do not allow the D or E parts to be renamed!
+	//  That data has to be transformed, not renamed
+	i8toi4(ifltab[zdssKeys.kbinTypeAndCatSort], &dataType, &temp);
+	if ((dataType >= DATA_TYPE_RTS) && (dataType < DATA_TYPE_PD)) {
+		free(newPath);
+		zpathnamePartPositions(newPathname, strlen(newPathname), positions, 7);
+		start = positions[5];
+		end = positions[6];
+		len = (int)(strlen(newPathname) + strlen(oldPathname)) + 1;
+		newPath = calloc(len, 1);
+		if (!newPath) {
+			return zerrorProcessing(ifltab, DSS_FUNCTION_zrename_ID,
+				zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, 0, 0,
+				zdssErrorSeverity.MEMORY_ERROR,
+				newPathname, "Allocating space for modified pathname");
+		}
+		stringCopy(newPath, len, newPathname, positions[3]);
+		zpathnamePartPositions(oldPathname, strlen(oldPathname), positions, 7);
+		stringCat(newPath, len, &oldPathname[positions[3]], (positions[5] - positions[3]));
+		stringCat(newPath, len, &newPathname[start], (end - start));
+		if (((int)strlen(newPath) == lenOld) && zstringCompare(oldPathname, newPath, lenOld)) {
+			//  Only the D or E parts were to be renamed, which we don't do
+			status = zrename(ifltab, oldPathname, newPath);
+			free(newPath);
+			return status;
+		}
+	}
+
 	//  Be sure the new pathname does not already exist
 	ifltab[zdssKeys.kaddInfoLastPath] = 0;
-	status = zcheckInternal(ifltab, newPathname, 1);
+	status = zcheckInternal(ifltab, newPath, 1);
 	if (zisError(status)) {
 		free(newPath);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zrename_ID);
 	}
 	if (status == STATUS_RECORD_FOUND) {
-		status = zdeleteInternal(ifltab, newPathname, 0);
+		status = zdeleteInternal(ifltab, newPath, 0);
 		if (zisError(status)) {
 			free(newPath);
 			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zrename_ID);
 		}
 		if (status != STATUS_OKAY) {
 			if (zmessageLevel(ifltab, MESS_METHOD_UTILITY_ID, MESS_LEVEL_GENERAL)) {
-				zmessage2(ifltab, ZRENAME_ALREADY_EXIST, newPathname);
+				zmessage2(ifltab, ZRENAME_ALREADY_EXIST, newPath);
 				zmessage2(ifltab, ZRENAME_OLD_PATH, oldPathname);
 			}
 			free(newPath);
@@ -205,7 +233,7 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 	}
 
 	//  Compute the new info block size
-	numberInfoNew = zdssVals.infoSize + numberLongsInBytes((int)ifltab[zdssKeys.klenLastPath]);
+	numberInfoNew = zdssVals.infoSize + numberLongsInBytes((int)strlen(newPath));
 
 	//  Force the internals to be loaded during the check
 	ifltab[zdssKeys.kaddInfoLastPath] = 0;
@@ -225,29 +253,6 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 	}
 
 
-	//  If the pathname is time series, do not allow the D or E parts to be renamed!
-	//  That data has to be transformed, not renamed
-	i8toi4(ifltab[zdssKeys.kbinTypeAndCatSort], &dataType, &temp);
-	if ((dataType >= DATA_TYPE_RTS) && (dataType < DATA_TYPE_PD)) {
-		free(newPath);
-		zpathnamePartPositions(newPathname, strlen(newPathname), positions, 7);
-		start = positions[5];
-		end = positions[6];
-		len = (int)strlen(newPathname) + 12;
-		newPath = calloc(len, 1);
-		if (!newPath) {
-			return zerrorProcessing(ifltab, DSS_FUNCTION_zrename_ID,
-				zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, 0, 0,
-				zdssErrorSeverity.MEMORY_ERROR,
-				newPathname, "Allocating space for modified pathname");
-		}
-		stringCopy(newPath, len, newPathname, positions[3]);
-		zpathnamePartPositions(oldPathname, strlen(oldPathname), positions, 7);
-		stringCat(newPath, len, &oldPathname[positions[3]], (positions[5] - positions[3]));
-		stringCat(newPath, len, &newPathname[start], (end - start));
-	}
-
-
 	//  First, mark the pathname bin status as remamed
 	address = ifltab[zdssKeys.kpathBinAddress] + zdssBinKeys.kbinStatus;
 	binStatus = REC_STATUS_RENAMED;
-- 
2.43.0


From d627219221e42c4e960fc2acea9775b299de92c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:16 +0000
Subject: [PATCH 11/75] fix: renaming an alias damaged its record, renaming to
 an alias deleted the record it stands for

---
 heclib/heclib_c/src/Public/zrename.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/heclib/heclib_c/src/Public/zrename.c b/heclib/heclib_c/src/Public/zrename.c
index d04670d..1b86115 100644
--- a/heclib/heclib_c/src/Public/zrename.c
+++ b/heclib/heclib_c/src/Public/zrename.c
@@ -163,7 +163,8 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 		free(newPath);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zrename_ID);
 	}
-	if (status != STATUS_RECORD_FOUND) {
+	if ((status != STATUS_RECORD_FOUND) || (ifltab[zdssKeys.kbinStatus] == REC_STATUS_ALIAS)) {
+		//  (An alias is not a record of its own)
 		if (zmessageLevel(ifltab, MESS_METHOD_UTILITY_ID, MESS_LEVEL_GENERAL)) {
 			zmessage2(ifltab, ZRENAME_NOT_EXIST, oldPathname);
 		}
@@ -207,7 +208,13 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zrename_ID);
 	}
 	if (status == STATUS_RECORD_FOUND) {
-		status = zdeleteInternal(ifltab, newPath, 0);
+		if (ifltab[zdssKeys.kbinStatus] == REC_STATUS_ALIAS) {
+			//  Remove the alias only, not the record it stands for
+			status = zaliasRemove(ifltab, newPath);
+		}
+		else {
+			status = zdeleteInternal(ifltab, newPath, 0);
+		}
 		if (zisError(status)) {
 			free(newPath);
 			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zrename_ID);
-- 
2.43.0


From da431a569c320caf803086fa61f6aa2e033157a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:16 +0000
Subject: [PATCH 12/75] fix: aliases lost their record when it was renamed to a
 longer pathname

---
 heclib/heclib_c/src/Public/zrename.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/heclib/heclib_c/src/Public/zrename.c b/heclib/heclib_c/src/Public/zrename.c
index 1b86115..404cca6 100644
--- a/heclib/heclib_c/src/Public/zrename.c
+++ b/heclib/heclib_c/src/Public/zrename.c
@@ -60,6 +60,7 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 	long long *info;
 	long long *infoOld;
 	long long infoAddress;
+	long long aliasInfoAddress;
 	long long address;
 	long long binStatus;
 	long long eofWord;
@@ -390,6 +391,26 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zrename_ID);
 	}
 	if (wroteAtEOF == 1) {
+		//  The first alias of this record (the last in the chain) points to the info block, which moved
+		address = info[zdssInfoKeys.kinfoAliasesBinAddress];
+		while (address > 0) {
+			address += zdssBinKeys.kbinInfoAdd;
+			status = zget(ifltab, address, (int *)&aliasInfoAddress, 1, 2);
+			if (zisError(status)) {
+				break;
+			}
+			if (aliasInfoAddress == infoAddress) {
+				status = zput(ifltab, address, (int *)&ifltab[zdssKeys.kaddInfoLastPath], 1, 2);
+				break;
+			}
+			address = aliasInfoAddress;
+		}
+		if (zisError(status)) {
+			if (infoOld) free(infoOld);
+			zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
+			free(newPath);
+			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zrename_ID);
+		}
 		//  Write the EOF flag
 		//////////////FIX ME HERE
 		eofWord = DSS_END_FILE_FLAG;
-- 
2.43.0


From 49c9842ac221aabeddd5c0f9b27d4f59ab50364e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:38 +0000
Subject: [PATCH 13/75] fix: an undeleted record was marked with a status the
 file check rejects

---
 heclib/heclib_c/src/Internal/zdeleteInternal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Internal/zdeleteInternal.c b/heclib/heclib_c/src/Internal/zdeleteInternal.c
index d9fceed..8cb7e88 100644
--- a/heclib/heclib_c/src/Internal/zdeleteInternal.c
+++ b/heclib/heclib_c/src/Internal/zdeleteInternal.c
@@ -77,7 +77,7 @@ int zdeleteInternal(long long *ifltab, const char *pathname, int boolUndelete)
 	fileHeader = (long long *)ifltab[zdssKeys.kfileHeader];
 	if (boolUndelete) {
 		functionID = DSS_FUNCTION_zundelete_ID;
-		deleteStatus = (long long)REC_STATUS_VALID;
+		deleteStatus = (long long)REC_STATUS_PRIMARY;
 		readAction = REC_STATUS_DELETED;
 	}
 	else {
-- 
2.43.0


From c92e85af6155dfcd4e9b4fa4abfe0447bc10f38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:15 +0000
Subject: [PATCH 14/75] fix: a write refused for its data type had already
 changed the record's last write time and dates

---
 heclib/heclib_c/src/Internal/zwriteExisting.c | 38 +++++++++----------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zwriteExisting.c b/heclib/heclib_c/src/Internal/zwriteExisting.c
index e925c8d..b7e8782 100644
--- a/heclib/heclib_c/src/Internal/zwriteExisting.c
+++ b/heclib/heclib_c/src/Internal/zwriteExisting.c
@@ -181,28 +181,10 @@ int zwriteExisting(long long *ifltab, zStructTransfer* ztransfer,
 		numberLongsInInts(ztransfer->values3Number);
 	totalNumberInts *= 2;
 
-	//  Use the same last written (current time) for record and file header
-	icurrentTime = getCurrentTimeMillis();
-	fileHeader[zdssFileKeys.klastWriteTime] = icurrentTime;
-	ifltab[zdssKeys.kmyLastWriteTime] = fileHeader[zdssFileKeys.klastWriteTime];
-	//  Update pathname bin
-	ifltab[zdssKeys.kbinLastWrite] = icurrentTime;
-	//  Update the first and last julian in the pathname bin, if needed
-	//  These dates were put here by a time series write function
-	i8toi4(ifltab[zdssKeys.kdataFirstDate], &julianFirst, &temp);
-	i8toi4(ifltab[zdssKeys.kdataLastDate],  &julianLast,  &temp);
-	ifltab[zdssKeys.kbinDates] = i4toi8(julianFirst, julianLast);
-	address = ifltab[zdssKeys.kinfoAddInBin] - zdssBinKeys.kbinInfoAdd +  zdssBinKeys.kbinLastWrite;
-
-	status = zput(ifltab, address, (int *)&ifltab[zdssKeys.kbinLastWrite], 2, 2);
-	if (zisError(status)) {
-		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zwriteExisting_ID);
-	}
-
-
 	info = (long long *)ifltab[zdssKeys.kinfo];
 	//  Check that we are writing the same data type.
 	//  You typically cannot overwrite a different data type - must first delete the record
+	//  (Check before anything is changed, so that a refused write leaves no trace)
 	i8toi4(info[zdssInfoKeys.kinfoTypeVersion], &type, &version);
 	
 	if (type != ztransfer->dataType) {
@@ -229,6 +211,24 @@ int zwriteExisting(long long *ifltab, zStructTransfer* ztransfer,
 		}
 	}
 
+	//  Use the same last written (current time) for record and file header
+	icurrentTime = getCurrentTimeMillis();
+	fileHeader[zdssFileKeys.klastWriteTime] = icurrentTime;
+	ifltab[zdssKeys.kmyLastWriteTime] = fileHeader[zdssFileKeys.klastWriteTime];
+	//  Update pathname bin
+	ifltab[zdssKeys.kbinLastWrite] = icurrentTime;
+	//  Update the first and last julian in the pathname bin, if needed
+	//  These dates were put here by a time series write function
+	i8toi4(ifltab[zdssKeys.kdataFirstDate], &julianFirst, &temp);
+	i8toi4(ifltab[zdssKeys.kdataLastDate],  &julianLast,  &temp);
+	ifltab[zdssKeys.kbinDates] = i4toi8(julianFirst, julianLast);
+	address = ifltab[zdssKeys.kinfoAddInBin] - zdssBinKeys.kbinInfoAdd +  zdssBinKeys.kbinLastWrite;
+
+	status = zput(ifltab, address, (int *)&ifltab[zdssKeys.kbinLastWrite], 2, 2);
+	if (zisError(status)) {
+		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zwriteExisting_ID);
+	}
+
 	//  Be sure we don't try to store negative lengths
 	if (ztransfer->internalHeaderNumber < 0) ztransfer->internalHeaderNumber = 0;
 	if (ztransfer->header2Number < 0) ztransfer->header2Number = 0;
-- 
2.43.0


From e5120d0d288848fb1a74cbf673a6db34f44a50a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:15 +0000
Subject: [PATCH 15/75] fix: a failed operation kept a stale file header, the
 next one overwrote records of other users

---
 .../src/Internal/zcopyRecordInternal.c        |  4 ++--
 heclib/heclib_c/src/Internal/ztsStoreIrreg7.c |  2 +-
 heclib/heclib_c/src/Internal/ztsStoreReg7.c   |  2 +-
 heclib/heclib_c/src/Internal/zwriteInternal.c |  4 ++--
 heclib/heclib_c/src/Public/zpdStore.c         | 14 +++++------
 heclib/heclib_c/src/Public/zrename.c          | 24 +++++++++----------
 6 files changed, 25 insertions(+), 25 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zcopyRecordInternal.c b/heclib/heclib_c/src/Internal/zcopyRecordInternal.c
index 4685e94..f0c6ab6 100644
--- a/heclib/heclib_c/src/Internal/zcopyRecordInternal.c
+++ b/heclib/heclib_c/src/Internal/zcopyRecordInternal.c
@@ -257,7 +257,7 @@ int zcopyRecordInternal(long long *ifltabFrom, long long *ifltabTo, const char *
 		//  Write the dataset to the file
 		status = zwrite(ifltabTo, ztransfer);
 		if (zisError(status)) {
-			zlockActive(ifltabTo, LOCKING_LEVEL_SUPER, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
+			zlockActive(ifltabTo, LOCKING_LEVEL_SUPER, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 			zstructFree(ztransfer);
 			return zerrorUpdate(ifltabFrom, status, DSS_FUNCTION_zcopyRecord_ID);
 		}
@@ -271,7 +271,7 @@ int zcopyRecordInternal(long long *ifltabFrom, long long *ifltabTo, const char *
 		//  Write the dataset to the file
 		status = zwrite(ifltabFrom, ztransfer);
 		if (zisError(status)) {
-			zlockActive(ifltabTo, LOCKING_LEVEL_SUPER, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
+			zlockActive(ifltabTo, LOCKING_LEVEL_SUPER, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 			zstructFree(ztransfer);
 			return zerrorUpdate(ifltabFrom, status, DSS_FUNCTION_zcopyRecord_ID);
 		}
diff --git a/heclib/heclib_c/src/Internal/ztsStoreIrreg7.c b/heclib/heclib_c/src/Internal/ztsStoreIrreg7.c
index 9bc34c4..637ec45 100644
--- a/heclib/heclib_c/src/Internal/ztsStoreIrreg7.c
+++ b/heclib/heclib_c/src/Internal/ztsStoreIrreg7.c
@@ -545,7 +545,7 @@ int ztsStoreIrreg7(long long *ifltab, zStructTimeSeries *tss, int storageFlag)
 			}
 
 			if (zisError(status)) {
-				zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
+				zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 				return zerrorUpdate(ifltab, status, DSS_FUNCTION_ztsStoreIrreg_ID);;
 			}
 		}
diff --git a/heclib/heclib_c/src/Internal/ztsStoreReg7.c b/heclib/heclib_c/src/Internal/ztsStoreReg7.c
index eec3687..80c0c81 100644
--- a/heclib/heclib_c/src/Internal/ztsStoreReg7.c
+++ b/heclib/heclib_c/src/Internal/ztsStoreReg7.c
@@ -346,7 +346,7 @@ int ztsStoreReg7(long long *ifltab, zStructTimeSeries *tss, int storageFlag)
 								boolReadBlock, dataType, storageFlag);
 
 		if (zisError(status)) {
-			zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
+			zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 			return zerrorUpdate(ifltab, status, DSS_FUNCTION_ztsStoreReg_ID);;
 		}
 
diff --git a/heclib/heclib_c/src/Internal/zwriteInternal.c b/heclib/heclib_c/src/Internal/zwriteInternal.c
index 04f48e3..833a815 100644
--- a/heclib/heclib_c/src/Internal/zwriteInternal.c
+++ b/heclib/heclib_c/src/Internal/zwriteInternal.c
@@ -323,7 +323,7 @@ int zwriteInternal(long long *ifltab, zStructTransfer* ztransfer, int checked,
 		status = zreadInfo(ifltab, ztransfer->pathname, 0);
 		if (zisError(status)) {
 			//  Error occured; update and return
-			zlockActive(ifltab, LOCKING_LEVEL_LOW, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
+			zlockActive(ifltab, LOCKING_LEVEL_LOW, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zwriteInternal_ID);
 		}
 	}
@@ -352,7 +352,7 @@ int zwriteInternal(long long *ifltab, zStructTransfer* ztransfer, int checked,
 
 	if (zisError(status)) {
 		//  Error code generated in the lower functions
-		zlockActive(ifltab, LOCKING_LEVEL_LOW, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
+		zlockActive(ifltab, LOCKING_LEVEL_LOW, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zwriteInternal_ID);
 	}
 
diff --git a/heclib/heclib_c/src/Public/zpdStore.c b/heclib/heclib_c/src/Public/zpdStore.c
index 4eddf2a..5cfb84d 100644
--- a/heclib/heclib_c/src/Public/zpdStore.c
+++ b/heclib/heclib_c/src/Public/zpdStore.c
@@ -916,7 +916,7 @@ int zpdStore(long long *ifltab, zStructPairedData *pds, int storageFlag)
 		}
 		status = zreadInternal(ifltab, ztransfer, bufferControl, buffer, 0);
 		if (zisError(status)) {
-			zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
+			zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 			FREE_TEMPS_AND_RESTORE
 			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zpdStore_ID);
 		}
@@ -924,7 +924,7 @@ int zpdStore(long long *ifltab, zStructPairedData *pds, int storageFlag)
 			status = zerrorProcessing(ifltab, DSS_FUNCTION_zpdStore_ID,
 				zdssErrorCodes.WRONG_RECORD_TYPE, DATA_TYPE_PD,
 				(long long)ztransfer->dataType, zdssErrorSeverity.WARNING, ztransfer->pathname, "");
-			zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
+			zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 			FREE_TEMPS_AND_RESTORE
 			return status;
 		}
@@ -987,7 +987,7 @@ int zpdStore(long long *ifltab, zStructPairedData *pds, int storageFlag)
 			ztransfer->values2 = (int *)calloc((size_t)(numberRows + 2), FLOAT_SIZE);
 		}
 		if (!ztransfer->values2) {
-			zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
+			zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 			FREE_TEMPS_AND_RESTORE
 			return zerrorProcessing(ifltab, DSS_FUNCTION_zpdStore_ID,
 									zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, numberRows, 0,
@@ -1013,7 +1013,7 @@ int zpdStore(long long *ifltab, zStructPairedData *pds, int storageFlag)
 			if (offset) {
 				status = zgetBuff(ifltab, address, ztransfer->values2, 2, 1, BUFF_READ, bufferControl, buffer);
 				if (zisError(status)) {
-					zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
+					zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 					FREE_TEMPS_AND_RESTORE
 					return zerrorUpdate(ifltab, status, DSS_FUNCTION_zreadInternal_ID);
 				}
@@ -1046,7 +1046,7 @@ int zpdStore(long long *ifltab, zStructPairedData *pds, int storageFlag)
 				}
 			}
 			else {
-				zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
+				zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 				FREE_TEMPS_AND_RESTORE
 				return zerrorProcessing(ifltab, DSS_FUNCTION_zpdStore_ID,
 									zdssErrorCodes.NO_DATA_GIVEN, 0, 0,
@@ -1142,7 +1142,7 @@ int zpdStore(long long *ifltab, zStructPairedData *pds, int storageFlag)
 				}
 				status = zreadInternal(ifltab, ztransfer, bufferControl, buffer, 0);
 				if (zisError(status)) {
-					zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
+					zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 					FREE_TEMPS_AND_RESTORE
 					return zerrorUpdate(ifltab, status, DSS_FUNCTION_zpdStore_ID);
 				}
@@ -1150,7 +1150,7 @@ int zpdStore(long long *ifltab, zStructPairedData *pds, int storageFlag)
 					status = zerrorProcessing(ifltab, DSS_FUNCTION_zpdStore_ID,
 						zdssErrorCodes.WRONG_RECORD_TYPE, DATA_TYPE_PD,
 						(long long)ztransfer->dataType, zdssErrorSeverity.WARNING, ztransfer->pathname, "");
-					zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
+					zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 					FREE_TEMPS_AND_RESTORE
 					return status;
 				}
diff --git a/heclib/heclib_c/src/Public/zrename.c b/heclib/heclib_c/src/Public/zrename.c
index 404cca6..75f3aaf 100644
--- a/heclib/heclib_c/src/Public/zrename.c
+++ b/heclib/heclib_c/src/Public/zrename.c
@@ -247,7 +247,7 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 	ifltab[zdssKeys.kaddInfoLastPath] = 0;
 	status = zcheckInternal(ifltab, oldPathname, 1);
 	if (zisError(status)) {
-		zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
+		zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 		free(newPath);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zrename_ID);
 	}
@@ -255,7 +255,7 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 		if (zmessageLevel(ifltab, MESS_METHOD_UTILITY_ID, MESS_LEVEL_GENERAL)) {
 			zmessage2(ifltab, ZRENAME_NOT_EXIST, oldPathname);
 		}
-		zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
+		zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 		free(newPath);
 		return STATUS_RECORD_NOT_FOUND;
 	}
@@ -266,7 +266,7 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 	binStatus = REC_STATUS_RENAMED;
 	status = zput(ifltab, address, (int *)&binStatus, 1, 2);
 	if (zisError(status)) {
-		zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
+		zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 		free(newPath);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zrename_ID);
 	}
@@ -277,7 +277,7 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 	numberInfoOld = zdssVals.infoSize + pathnameSize;
 	status = zget(ifltab, ifltab[zdssKeys.kaddInfoLastPath], (int *)info, numberInfoOld, 2);
 	if (zisError(status)) {
-		zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
+		zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 		free(newPath);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zrename_ID);
 	}
@@ -301,7 +301,7 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 		status = zput(ifltab, ifltab[zdssKeys.kaddInfoLastPath], (int *)info, numberInfoOld, 2);
 		if (zisError(status)) {
 			if (infoOld) free(infoOld);
-			zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
+			zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 			free(newPath);
 			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zrename_ID);
 		}
@@ -316,7 +316,7 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 	status = zcheckInternal(ifltab, newPath, 1);
 	if (zisError(status)) {
 		if (infoOld) free(infoOld);
-		zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
+		zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 		free(newPath);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zrename_ID);
 	}
@@ -327,7 +327,7 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 		status = zbinNew(ifltab);
 		if (zisError(status)) {
 			if (infoOld) free(infoOld);
-			zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
+			zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 			free(newPath);
 			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zrename_ID);
 		}
@@ -336,7 +336,7 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 		status = zput(ifltab, ifltab[zdssKeys.kaddTableHash], (int *)&ifltab[zdssKeys.khashTableBinAdd], 1, 2);
 		if (zisError(status)) {
 			if (infoOld) free(infoOld);
-			zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
+			zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 			free(newPath);
 			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zrename_ID);
 		}
@@ -386,7 +386,7 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 	status = zput(ifltab, ifltab[zdssKeys.kaddInfoLastPath], (int *)info, numberInfoNew, 2);
 	if (zisError(status)) {
 		if (infoOld) free(infoOld);
-		zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
+		zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 		free(newPath);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zrename_ID);
 	}
@@ -407,7 +407,7 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 		}
 		if (zisError(status)) {
 			if (infoOld) free(infoOld);
-			zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
+			zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 			free(newPath);
 			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zrename_ID);
 		}
@@ -417,7 +417,7 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 		status = zput(ifltab, fileHeader[zdssFileKeys.kfileSize], (int *)&eofWord, 1, 2);
 		if (zisError(status)) {
 			if (infoOld) free(infoOld);
-			zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
+			zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 			free(newPath);
 			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zrename_ID);
 		}
@@ -437,7 +437,7 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 	status = zpermWrite(ifltab);
 	if (zisError(status)) {
 		if (infoOld) free(infoOld);
-		zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
+		zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 		free(newPath);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zrename_ID);
 	}
-- 
2.43.0


From 0e6c00f0c3775b7b2abfe03ff7249977fb4726cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:33 +0000
Subject: [PATCH 16/75] fix: reading a record that does not exist returned the
 record of the alias looked up before

---
 heclib/heclib_c/src/Internal/zcheckInternal.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/heclib/heclib_c/src/Internal/zcheckInternal.c b/heclib/heclib_c/src/Internal/zcheckInternal.c
index ebaf8e0..daf82ac 100644
--- a/heclib/heclib_c/src/Internal/zcheckInternal.c
+++ b/heclib/heclib_c/src/Internal/zcheckInternal.c
@@ -221,6 +221,8 @@ int zcheckInternal(long long *ifltab, const char* pathname, int statusWanted)
 	//  checked to clear the last record accessed
 	ifltab[zdssKeys.kaddInfoLastPath] = 0;
 	ifltab[zdssKeys.kbinAddCurrent] = 0;
+	//  The status of the last pathname checked does not apply to this one
+	ifltab[zdssKeys.kbinStatus] = 0;
 	//  ifltab[zdssKeys.kinfo] points to a memory location for the info area for this ifltab
 	//  We'll use that to read in the info are for this record, if found.
 	info = (long long *)ifltab[zdssKeys.kinfo];
-- 
2.43.0


From 8407281c4ebe7b5f416f38da067485ef088ae7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:07 +0000
Subject: [PATCH 17/75] fix: undelete brought back a deleted record although
 the pathname had been written again

---
 heclib/heclib_c/src/Internal/zdeleteInternal.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Internal/zdeleteInternal.c b/heclib/heclib_c/src/Internal/zdeleteInternal.c
index 8cb7e88..eb5f938 100644
--- a/heclib/heclib_c/src/Internal/zdeleteInternal.c
+++ b/heclib/heclib_c/src/Internal/zdeleteInternal.c
@@ -119,9 +119,22 @@ int zdeleteInternal(long long *ifltab, const char *pathname, int boolUndelete)
 	}
 
 
+	//  A record written again since it was deleted stays as it is;
+	//  bringing the deleted one back would give two with this pathname
+	status = STATUS_RECORD_NOT_FOUND;
+	if (boolUndelete) {
+		ifltab[zdssKeys.kaddInfoLastPath] = 0;
+		status = zcheckInternal(ifltab, pathname, REC_STATUS_VALID);
+	}
+
 	//  Force the internals to be loaded during the check
 	ifltab[zdssKeys.kaddInfoLastPath] = 0;
-	status = zreadInfo(ifltab, pathname, readAction);
+	if (status == STATUS_RECORD_FOUND) {
+		status = STATUS_RECORD_NOT_FOUND;
+	}
+	else if (!zisError(status)) {
+		status = zreadInfo(ifltab, pathname, readAction);
+	}
 	if (zisError(status)) {
 		zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 		return zerrorUpdate(ifltab, status, functionID);
-- 
2.43.0


From 03f8ab66c854c062753dfa8311afa1374e576016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:15 +0000
Subject: [PATCH 18/75] fix: copying a file missed the records other users had
 written

---
 heclib/heclib_c/src/Public/zcopyFile.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/heclib/heclib_c/src/Public/zcopyFile.c b/heclib/heclib_c/src/Public/zcopyFile.c
index 79f5f9e..0e9a54d 100644
--- a/heclib/heclib_c/src/Public/zcopyFile.c
+++ b/heclib/heclib_c/src/Public/zcopyFile.c
@@ -128,6 +128,13 @@ int zcopyFile(long long *ifltabFrom, long long *ifltabTo, int statusWanted)
 	}
 
 
+	//  Other users may have written records since we last read the file header
+	if (!ifltabFrom[zdssKeys.klocked]) {
+		status = zpermRead(ifltabFrom);
+		if (zisError(status)) {
+			return zerrorUpdate(ifltabFrom, status, DSS_FUNCTION_zcopyFile_ID);
+		}
+	}
 	fileHeader = (long long *)ifltabFrom[zdssKeys.kfileHeader];
 	fileSize = fileHeader[zdssFileKeys.kfileSize];
 	zresetProgress(zhandle(ifltabFrom), fileHeader[zdssFileKeys.knumberRecords]);
-- 
2.43.0


From 7bba6b0f3e135e93b0e43784d1074a05c1441fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:41 +0000
Subject: [PATCH 19/75] fix: the file check reported an error for every file
 with aliases

---
 heclib/heclib_c/src/SemiPublic/zcheckPathnames.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/heclib/heclib_c/src/SemiPublic/zcheckPathnames.c b/heclib/heclib_c/src/SemiPublic/zcheckPathnames.c
index 65218d2..4893d67 100644
--- a/heclib/heclib_c/src/SemiPublic/zcheckPathnames.c
+++ b/heclib/heclib_c/src/SemiPublic/zcheckPathnames.c
@@ -48,6 +48,7 @@ int zcheckPathnames(long long *ifltab)
 	int jcount;
 	int numberErrors;
 	int numberFound;
+	int numberRecords;
 	int boolFound;
 	int status;
 	int binSize;
@@ -189,14 +190,16 @@ int zcheckPathnames(long long *ifltab)
 		zmessageDebugInt(ifltab, DSS_FUNCTION_zcheckPathnames_ID, "Number not found: ", numberErrors);
 	}
 	if (numberErrors == 0) {
-		if (fileHeader[zdssFileKeys.knumberRecords] != numberFound) {
+		//  The pathnames found include aliases
+		numberRecords = (int)(fileHeader[zdssFileKeys.knumberRecords] + fileHeader[zdssFileKeys.knumberAliases]);
+		if (numberRecords != numberFound) {
 			if (zmessageLevel(ifltab, MESS_METHOD_FILE_CHECK_ID, MESS_LEVEL_GENERAL)) {
 				zmessage(ifltab, "zcheckPathnames, More pathnames found in file than recorded in file header.");
 				_snprintf_s(messageString, sizeof(messageString), _TRUNCATE, " %d, Number in file header: %d",
-					numberFound, (int)fileHeader[zdssFileKeys.knumberRecords]);
+					numberFound, numberRecords);
 				zmessage2(ifltab, "Number counted:", messageString);
 			}
-			numberErrors = (int)fileHeader[zdssFileKeys.knumberRecords] - numberFound;
+			numberErrors = numberRecords - numberFound;
 			if (numberErrors < 0) numberErrors = -numberErrors;
 		}
 	}
-- 
2.43.0


From 3dd107ce99b772b866a1eedaae0b2907bd9f0733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:09 +0000
Subject: [PATCH 20/75] fix: aliases lost their record when it was written
 again and had to move

---
 heclib/heclib_c/src/Internal/zwriteExisting.c | 22 +++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/heclib/heclib_c/src/Internal/zwriteExisting.c b/heclib/heclib_c/src/Internal/zwriteExisting.c
index b7e8782..9061e2f 100644
--- a/heclib/heclib_c/src/Internal/zwriteExisting.c
+++ b/heclib/heclib_c/src/Internal/zwriteExisting.c
@@ -162,6 +162,9 @@ int zwriteExisting(long long *ifltab, zStructTransfer* ztransfer,
 
 	long long icurrentTime;
 	long long address;
+	long long oldInfoAddress;
+	long long aliasAddress;
+	long long aliasInfoAddress;
 	long long *info;
 	long long *fileHeader;
 
@@ -379,6 +382,7 @@ int zwriteExisting(long long *ifltab, zStructTransfer* ztransfer,
 			numberLongsInInts(ztransfer->totalAllocatedSize);
 		//  We can use reclaimed space - even if it includes this same record
 		address = zgetFileSpace(ifltab, total, 1, wroteAtEOF);
+		oldInfoAddress = ifltab[zdssKeys.kaddInfoLastPath];
 		ifltab[zdssKeys.kaddInfoLastPath] = address;
 		fileHeader[zdssFileKeys.knumberExpansions] += 1;
 
@@ -388,6 +392,24 @@ int zwriteExisting(long long *ifltab, zStructTransfer* ztransfer,
 			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zwriteExisting_ID);
 		}
 
+		//  The first alias of this record (the last in the chain) points to the info block, which moved
+		aliasAddress = info[zdssInfoKeys.kinfoAliasesBinAddress];
+		while (aliasAddress > 0) {
+			aliasAddress += zdssBinKeys.kbinInfoAdd;
+			status = zget(ifltab, aliasAddress, (int *)&aliasInfoAddress, 1, 2);
+			if (zisError(status)) {
+				return zerrorUpdate(ifltab, status, DSS_FUNCTION_zwriteExisting_ID);
+			}
+			if (aliasInfoAddress == oldInfoAddress) {
+				status = zput(ifltab, aliasAddress, (int *)&ifltab[zdssKeys.kaddInfoLastPath], 1, 2);
+				if (zisError(status)) {
+					return zerrorUpdate(ifltab, status, DSS_FUNCTION_zwriteExisting_ID);
+				}
+				break;
+			}
+			aliasAddress = aliasInfoAddress;
+		}
+
 		info[zdssInfoKeys.kinfoFlag] = DSS_INFO_FLAG;
 		info[zdssInfoKeys.kinfoStatus] = REC_STATUS_PRIMARY;
 
-- 
2.43.0


From a44c7545673093a2e6fc6aa912a5864a854736e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:09 +0000
Subject: [PATCH 21/75] fix: a stale or partial sort list produced catalogs
 with missing pathnames

---
 .../heclib_c/src/Internal/zcatInternalSort.c  | 27 +++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/heclib/heclib_c/src/Internal/zcatInternalSort.c b/heclib/heclib_c/src/Internal/zcatInternalSort.c
index dff0803..7993ba4 100644
--- a/heclib/heclib_c/src/Internal/zcatInternalSort.c
+++ b/heclib/heclib_c/src/Internal/zcatInternalSort.c
@@ -117,10 +117,22 @@ int zcatInternalSort(long long *ifltab, const char *pathWithWild, zStructCatalog
 		}
 	}
 	else {
+		//  Other users may have changed the file since we last read its header
+		if (!ifltab[zdssKeys.klocked]) {
+			status = zpermRead(ifltab);
+			if (zisError(status)) {
+				zstructFree(nonSortedStruct);
+				return zerrorUpdate(ifltab, status, DSS_FUNCTION_zcatalog_ID);
+			}
+		}
 		fileHeader = (long long *)ifltab[zdssKeys.kfileHeader];
 		if ((pathWithWild && ((int)strlen(pathWithWild) > 1)) || (boolCollection)) {
 			sortListStatus = 0;
 		}
+		else if (sortedStruct && ((sortedStruct->statusWanted != REC_STATUS_VALID) || (sortedStruct->typeWantedStart != 0))) {
+			//  The sort list is for the complete catalog only
+			sortListStatus = 0;
+		}
 		else {
 			sortListStatus = (int)fileHeader[zdssFileKeys.kcatSortStatus];
 		}
@@ -156,6 +168,21 @@ int zcatInternalSort(long long *ifltab, const char *pathWithWild, zStructCatalog
 									zdssErrorSeverity.MEMORY_ERROR, "", "Allocating space for sortAddresses");
 		}
 		status = zgetCatalogSortAddresses(ifltab, sortAddresses, numberPathnames);
+		if (status == 0) {
+			//  Be sure that the list has all of the pathnames (e.g., aliases are not in it)
+			icount = 0;
+			for (i=0; i<numberPathnames; i++) {
+				for (j=0; j<numberPathnames; j++) {
+					if (sortAddresses[i] == nonSortedStruct->sortAddresses[j]) {
+						icount++;
+						break;
+					}
+				}
+			}
+			if (icount != numberPathnames) {
+				status = -1;
+			}
+		}
 		if (status < 0) {
 			//  Very rare
 			sortListStatus = 0;
-- 
2.43.0


From 528cf4760d957e9318f9ebf8e4b41a674ec60356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:46 +0000
Subject: [PATCH 22/75] fix: the file check reported errors for records with
 more than one alias

---
 heclib/heclib_c/src/Internal/zreadInfoBlock.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zreadInfoBlock.c b/heclib/heclib_c/src/Internal/zreadInfoBlock.c
index 3c1e4f7..15e9be2 100644
--- a/heclib/heclib_c/src/Internal/zreadInfoBlock.c
+++ b/heclib/heclib_c/src/Internal/zreadInfoBlock.c
@@ -131,8 +131,14 @@ int zreadInfoBlock (long long *ifltab, const char *pathname, int statusWanted,
 		if (*numberInfo > maxInfo)
 			*numberInfo = maxInfo;
 		istat = zget(ifltab, ifltab[zdssKeys.kaddInfoLastPath], (int *)info, *numberInfo, 2);
-		if (zisError(status)) {
-			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zreadInfo_ID);
+		//  The bin of an alias may lead to the bin of another alias; walk down to the info block
+		while (!zisError(istat) && (ifltab[zdssKeys.kbinStatus] == REC_STATUS_ALIAS) &&
+			(info[zdssInfoKeys.kinfoFlag] != DSS_INFO_FLAG) && (info[zdssBinKeys.kbinStatus] == REC_STATUS_ALIAS)) {
+			ifltab[zdssKeys.kaddInfoLastPath] = info[zdssBinKeys.kbinInfoAdd];
+			istat = zget(ifltab, ifltab[zdssKeys.kaddInfoLastPath], (int *)info, *numberInfo, 2);
+		}
+		if (zisError(istat)) {
+			return zerrorUpdate(ifltab, istat, DSS_FUNCTION_zreadInfo_ID);
 		}
 	}
 	else {
-- 
2.43.0


From 59aa3f8e534d1661c4a0152a972130b6de799014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:12 +0000
Subject: [PATCH 23/75] fix: clearing the space reclamation table filled it
 with undefined values

---
 heclib/heclib_c/src/Internal/zreclaimSet.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zreclaimSet.c b/heclib/heclib_c/src/Internal/zreclaimSet.c
index 645ee04..45e56a3 100644
--- a/heclib/heclib_c/src/Internal/zreclaimSet.c
+++ b/heclib/heclib_c/src/Internal/zreclaimSet.c
@@ -43,7 +43,7 @@ int zreclaimSet(long long *ifltab, int reclaimLevel)
 {
 	long long boolWritingNow;
 	long long *fileHeader;
-	int zero;
+	long long zero = 0;
 	int size;
 	int status;
 
@@ -68,7 +68,7 @@ int zreclaimSet(long long *ifltab, int reclaimLevel)
 			fileHeader[zdssFileKeys.kreclaimSegAvailableAdd] = fileHeader[zdssFileKeys.kreclaimTableAddress];
 			//  zero out the reclamation table
 			size = (int)fileHeader[zdssFileKeys.kreclaimSize];
-			status = zput(ifltab, fileHeader[zdssFileKeys.kreclaimTableAddress], &zero, -size, 2);
+			status = zput(ifltab, fileHeader[zdssFileKeys.kreclaimTableAddress], (int *)&zero, -size, 2);
 			if (zisError(status)) {
 				return zerrorUpdate(ifltab, status, DSS_FUNCTION_zpermCreate_ID);
 			}
-- 
2.43.0


From 01483de52ea3b3f7cc29b9a4d85d5b1d62919f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:24 +0000
Subject: [PATCH 24/75] fix: removing an alias could pick up a record renamed
 away from the same pathname

---
 heclib/heclib_c/src/Public/zaliasRemove.c    | 2 +-
 heclib/heclib_c/src/Public/zaliasRemoveAll.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/heclib/heclib_c/src/Public/zaliasRemove.c b/heclib/heclib_c/src/Public/zaliasRemove.c
index e34f052..e7bc88c 100644
--- a/heclib/heclib_c/src/Public/zaliasRemove.c
+++ b/heclib/heclib_c/src/Public/zaliasRemove.c
@@ -105,7 +105,7 @@ int zaliasRemove(long long *ifltab, const char* aliasPathname)
 	infoAddressInBin = ifltab[zdssKeys.kaddInfoLastPath];
 
 	//  Read in the info block
-	status = zreadInfo(ifltab, aliasPathname, REC_STATUS_ANY);
+	status = zreadInfo(ifltab, aliasPathname, REC_STATUS_VALID);
 	if (zisError(status)) {
 		zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zaliasRemove_ID);
diff --git a/heclib/heclib_c/src/Public/zaliasRemoveAll.c b/heclib/heclib_c/src/Public/zaliasRemoveAll.c
index 9f20fde..dc7922c 100644
--- a/heclib/heclib_c/src/Public/zaliasRemoveAll.c
+++ b/heclib/heclib_c/src/Public/zaliasRemoveAll.c
@@ -87,7 +87,7 @@ int zaliasRemoveAll(long long *ifltab, const char* pathname)
 	fileHeader = (long long *)ifltab[zdssKeys.kfileHeader];
 
 	//  Read in the info block
-	status = zreadInfo(ifltab, pathname, REC_STATUS_ANY);
+	status = zreadInfo(ifltab, pathname, REC_STATUS_VALID);
 	if (zisError(status)) {
 		zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zaliasRemove_ID);
-- 
2.43.0


From b5dbbb825d22dd320ebe16b5e34f3455248078db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:38 +0000
Subject: [PATCH 25/75] fix: the file check failed for an alias with a longer
 pathname than its record at the end of the file

---
 heclib/heclib_c/src/Internal/zreadInfoBlock.c | 21 ++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zreadInfoBlock.c b/heclib/heclib_c/src/Internal/zreadInfoBlock.c
index 15e9be2..c801848 100644
--- a/heclib/heclib_c/src/Internal/zreadInfoBlock.c
+++ b/heclib/heclib_c/src/Internal/zreadInfoBlock.c
@@ -112,6 +112,9 @@ int zreadInfoBlock (long long *ifltab, const char *pathname, int statusWanted,
 {
 	int status;
 	int istat;
+	int numberRead;
+	long long remaining;
+	long long *fileHeader;
 
 
 	if (zmessageLevel(ifltab, MESS_METHOD_CHECK_ID, MESS_LEVEL_USER_DIAG)) {
@@ -130,13 +133,21 @@ int zreadInfoBlock (long long *ifltab, const char *pathname, int statusWanted,
 		*numberInfo = zdssVals.infoSize + numberLongsInBytes((int)ifltab[zdssKeys.klenLastPath]);
 		if (*numberInfo > maxInfo)
 			*numberInfo = maxInfo;
-		istat = zget(ifltab, ifltab[zdssKeys.kaddInfoLastPath], (int *)info, *numberInfo, 2);
-		//  The bin of an alias may lead to the bin of another alias; walk down to the info block
-		while (!zisError(istat) && (ifltab[zdssKeys.kbinStatus] == REC_STATUS_ALIAS) &&
-			(info[zdssInfoKeys.kinfoFlag] != DSS_INFO_FLAG) && (info[zdssBinKeys.kbinStatus] == REC_STATUS_ALIAS)) {
+		fileHeader = (long long *)ifltab[zdssKeys.kfileHeader];
+		while (1) {
+			//  The pathname of an alias may be longer than that of its record, whose info block is smaller then
+			numberRead = *numberInfo;
+			remaining = fileHeader[zdssFileKeys.kfileSize] - ifltab[zdssKeys.kaddInfoLastPath];
+			if ((remaining >= zdssVals.infoSize) && ((long long)numberRead > remaining))
+				numberRead = (int)remaining;
+			istat = zget(ifltab, ifltab[zdssKeys.kaddInfoLastPath], (int *)info, numberRead, 2);
+			//  The bin of an alias may lead to the bin of another alias; walk down to the info block
+			if (zisError(istat) || (ifltab[zdssKeys.kbinStatus] != REC_STATUS_ALIAS) ||
+				(info[zdssInfoKeys.kinfoFlag] == DSS_INFO_FLAG) || (info[zdssBinKeys.kbinStatus] != REC_STATUS_ALIAS))
+				break;
 			ifltab[zdssKeys.kaddInfoLastPath] = info[zdssBinKeys.kbinInfoAdd];
-			istat = zget(ifltab, ifltab[zdssKeys.kaddInfoLastPath], (int *)info, *numberInfo, 2);
 		}
+		*numberInfo = numberRead;
 		if (zisError(istat)) {
 			return zerrorUpdate(ifltab, istat, DSS_FUNCTION_zreadInfo_ID);
 		}
-- 
2.43.0


From 5e17969eff162dde2a32a51462deb1f32134dcc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:22 +0000
Subject: [PATCH 26/75] fix: tsRetrieve with quality requested for a series
 stored without quality dereferenced NULL

---
 heclib/hecdss/hecdss.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heclib/hecdss/hecdss.c b/heclib/hecdss/hecdss.c
index ea4c44d..289a19b 100644
--- a/heclib/hecdss/hecdss.c
+++ b/heclib/hecdss/hecdss.c
@@ -362,7 +362,7 @@ HECDSS_API int hec_dss_tsRetrieve(dss_file* dss, const char *pathname,
             }
             valueArray[i] = tss->doubleValues[i];
             if (qualityWidth > 0) // TO DO.. quality can have multiple columns
-               quality[i] = tss->quality[i];
+               quality[i] = tss->quality ? tss->quality[i] : 0;
 
         }
     }
-- 
2.43.0


From 0e79ac3d1a34b7bd31e8695916cf66cf98122348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:22 +0000
Subject: [PATCH 27/75] fix: tsRetrieve compared the dates with a string
 literal by address, so "" did not ask for all times

---
 heclib/hecdss/hecdss.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/heclib/hecdss/hecdss.c b/heclib/hecdss/hecdss.c
index 289a19b..2c71d73 100644
--- a/heclib/hecdss/hecdss.c
+++ b/heclib/hecdss/hecdss.c
@@ -321,10 +321,10 @@ HECDSS_API int hec_dss_tsRetrieve(dss_file* dss, const char *pathname,
     tss->boolPattern = isTsPattern(pathname);
     // if no dates/times are given retrieve all data.
     if (  
-         (startDate == NULL || startDate == "\0")
-      && (startTime == NULL || startTime == "\0")
-      && (endDate == NULL   || endDate == "\0")
-      && (endTime == NULL   || endTime == "\0")
+         (startDate == NULL || startDate[0] == '\0')
+      && (startTime == NULL || startTime[0] == '\0')
+      && (endDate == NULL   || endDate[0] == '\0')
+      && (endTime == NULL   || endTime[0] == '\0')
       && ! tss->boolPattern
          ) 
     {
-- 
2.43.0


From f8481ca3c8023b0b9ddc43a50b0b8fac121e9bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:16 +0000
Subject: [PATCH 28/75] fix: the quality given to tsStoreRegular and
 tsStoreIregular was not stored

---
 heclib/hecdss/hecdss.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/heclib/hecdss/hecdss.c b/heclib/hecdss/hecdss.c
index 2c71d73..031b9ce 100644
--- a/heclib/hecdss/hecdss.c
+++ b/heclib/hecdss/hecdss.c
@@ -389,13 +389,15 @@ HECDSS_API int hec_dss_tsStoreRegular(dss_file* dss, const char* pathname,
       
 
     tss = zstructTsNewRegFloats(pathname, values, valueArraySize, startDate, startTime, units, type);
-    tss->allocated[zSTRUCT_TS_floatValues];// zstructFree will free float array
-    if (qualityArraySize > 0 && qualityArraySize == valueArraySize)
-      tss->quality = qualityArray;
+    tss->allocated[zSTRUCT_TS_floatValues] = 1;// zstructFree will free float array
   }
   else {
     tss = zstructTsNewRegDoubles(pathname, valueArray, valueArraySize, startDate, startTime, units, type);
   }
+  if (qualityArraySize > 0 && qualityArraySize == valueArraySize) {
+    tss->quality = qualityArray;
+    tss->qualityElementSize = 1;
+  }
   tss->boolPattern = isTsPattern(pathname);
 
   tss->timeZoneName = mallocAndCopy(timeZoneName);
@@ -424,7 +426,7 @@ HECDSS_API int hec_dss_tsStoreIregular(dss_file* dss, const char* pathname,
 
     tss = zstructTsNewIrregFloats(pathname,values, valueArraySize,times,
       timeGranularitySeconds, startDateBase,units, type);
-    tss->allocated[zSTRUCT_TS_floatValues];
+    tss->allocated[zSTRUCT_TS_floatValues] = 1;
   }
   else {
     tss = zstructTsNewIrregDoubles(pathname, valueArray, valueArraySize, times,
@@ -433,6 +435,7 @@ HECDSS_API int hec_dss_tsStoreIregular(dss_file* dss, const char* pathname,
   if  (qualityArraySize > 0 && qualityArraySize == valueArraySize) {
     // TO DO.. quality can be multi-dimensional (Is that used?)
     tss->quality = qualityArray;
+    tss->qualityElementSize = 1;
     tss->qualityArraySize = qualityArraySize;
   }
     
-- 
2.43.0


From 6af74eacbee3e9b9583f39d747674e2b654f5227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:23 +0000
Subject: [PATCH 29/75] fix: replacing irregular values dropped the values
 behind them when as many came before, and shifted their notes

---
 heclib/heclib_c/src/Internal/ztsIrregMergeBlocks.c | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/ztsIrregMergeBlocks.c b/heclib/heclib_c/src/Internal/ztsIrregMergeBlocks.c
index cc7f8c0..1319a0d 100644
--- a/heclib/heclib_c/src/Internal/ztsIrregMergeBlocks.c
+++ b/heclib/heclib_c/src/Internal/ztsIrregMergeBlocks.c
@@ -530,11 +530,6 @@ void ztsIrregMergeBlocks(long long *ifltab, int storageFlag,
 						icnotesPosOut += ispos;
 						icnotesPosToStore += ispos;
 					}
-					//  Count the characters in the read string and increment
-					if (cnotesReadLen > 0) {
-						ispos = copyLines(cdummy, (size_t)0, &cnotesRead[icnotesPosRead], (size_t)(cnotesReadLen - icnotesPosRead), 1);
-						icnotesPosRead += ispos;
-					}
 				}
 				icountTotal++;
 				icountStore++;
@@ -547,11 +542,7 @@ void ztsIrregMergeBlocks(long long *ifltab, int storageFlag,
 		// Copy the remaining read data, if any
 		if (!boolToEndOfBlock) {
 			numberLeft = numberToStore + numberRead - icountTotal;
-			icnotesPosRead = 0;
 			for (i=0; i<numberLeft; i++) {
-				if (icountTotal >= combinedTotal) {
-					break;
-				}
 				if (icountRead < numberRead) {
 					if ((numberToStore > 0) && (timesToStore[numberToStore-1] >= timesRead[icountRead])) {
 						icountRead++;
@@ -559,7 +550,6 @@ void ztsIrregMergeBlocks(long long *ifltab, int storageFlag,
 							ispos = copyLines(cdummy, (size_t)0, &cnotesRead[icnotesPosRead], (size_t)(cnotesReadLen - icnotesPosRead), 1);
 							icnotesPosRead += ispos;
 						}
-/////////////////   FIX ME - NEED TO MOVE THE CHARS COUNT FORWARD TOO!!!
 					}
 					else {
 						if (zmessageLevel(ifltab, MESS_METHOD_TS_WRITE_ID, MESS_LEVEL_INTERNAL_DIAG_2)) {
-- 
2.43.0


From 9975f65b786aac8dc33a3eae5067d5787bd7ccbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:22 +0000
Subject: [PATCH 30/75] fix: storing values over a block with character notes
 moved the notes to other values

---
 heclib/heclib_c/src/Internal/ztsRegStoreBlock.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c b/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c
index 57a197d..69640c9 100644
--- a/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c
+++ b/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c
@@ -813,7 +813,7 @@ int ztsRegStoreBlock(long long *ifltab, zStructTimeSeries *tss, const char *path
 		ifltab[zdssKeys.kdataFirstDate] = i4toi8(julianFirstValue, secondsFirstValue);
 		ifltab[zdssKeys.kdataLastDate] = i4toi8(julianLastValue, secondsLastValue);
 
-		if ((qualityElementSize > 0) || (inoteElementSize > 0) || (cnotesSize > 0)) {
+		if ((qualityElementSize > 0) || (inoteElementSize > 0) || (cnotesToStoreLen > 0)) {
 			//  If quality or notes, store the full block
 			numberToStore = numberInBlock;
 			blockStartPosition = 0;
-- 
2.43.0


From cc7fab17c4b602fb002883bab2a10d2b8c90849e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:53 +0000
Subject: [PATCH 31/75] fix: tsRetrieve mixed up the columns when a value has
 more than one quality element

---
 heclib/hecdss/hecdss.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/heclib/hecdss/hecdss.c b/heclib/hecdss/hecdss.c
index 031b9ce..c69221c 100644
--- a/heclib/hecdss/hecdss.c
+++ b/heclib/hecdss/hecdss.c
@@ -361,8 +361,8 @@ HECDSS_API int hec_dss_tsRetrieve(dss_file* dss, const char *pathname,
               timeArray[i] = tss->times[i];
             }
             valueArray[i] = tss->doubleValues[i];
-            if (qualityWidth > 0) // TO DO.. quality can have multiple columns
-               quality[i] = tss->quality ? tss->quality[i] : 0;
+            if (qualityWidth > 0) // TO DO.. only the first column of a multiple column quality is returned
+               quality[i] = tss->quality ? tss->quality[i * tss->qualityElementSize] : 0;
 
         }
     }
-- 
2.43.0


From 8126eda62154060b1a4e0f73ff009fbbe9d05ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:14 +0000
Subject: [PATCH 32/75] fix: reading character notes over blocks with and
 without notes overran, cut or shifted them

---
 heclib/heclib_c/src/Internal/ztsDisaggregate.c |  4 ++--
 heclib/heclib_c/src/Internal/ztsRegReadBlock.c |  8 +++++---
 heclib/heclib_c/src/Internal/ztsRetrieveReg7.c | 10 ++++++----
 3 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/ztsDisaggregate.c b/heclib/heclib_c/src/Internal/ztsDisaggregate.c
index 4365777..07001e9 100644
--- a/heclib/heclib_c/src/Internal/ztsDisaggregate.c
+++ b/heclib/heclib_c/src/Internal/ztsDisaggregate.c
@@ -330,7 +330,7 @@ int ztsDisaggregate(long long *ifltab, int numberToRead, int numberStored,
 		//  number = min(cnotesSize, numberToRead);
 		number = numberToRead;
 		if (cnotesSize < number) number = cnotesSize;
-		zeroFill(cnotes, numberToRead);
+		zeroFill(cnotes, number);
 		//  Set size requested to zero to bypass code below.
 		cnotesSize = 0;
 		*cnotesLength = number;
@@ -955,7 +955,7 @@ int ztsDisaggregateDep(long long *ifltab, int numberToRead, int numberStored,
 		//  number = min(cnotesSize, numberToRead);
 		number = numberToRead;
 		if (cnotesSize < number) number = cnotesSize;
-		zeroFill(cnotes, numberToRead);
+		zeroFill(cnotes, number);
 		//  Set size requested to zero to bypass code below.
 		cnotesSize = 0;
 		*cnotesLength = number;
diff --git a/heclib/heclib_c/src/Internal/ztsRegReadBlock.c b/heclib/heclib_c/src/Internal/ztsRegReadBlock.c
index 62508d8..cc3824c 100644
--- a/heclib/heclib_c/src/Internal/ztsRegReadBlock.c
+++ b/heclib/heclib_c/src/Internal/ztsRegReadBlock.c
@@ -192,6 +192,7 @@ int ztsRegReadBlock(long long *ifltab, const char *pathname, int boolExists,
 	int iposValues;
 	int iposQuality;
 	int iposNotes;
+	int iposCnotes;
 	int status;
 	int i;
 	int version;
@@ -382,6 +383,7 @@ int ztsRegReadBlock(long long *ifltab, const char *pathname, int boolExists,
 		iposValues = 0;
 		iposQuality = 0;
 		iposNotes = 0;
+		iposCnotes = 0;
 		*valueElementSizeRead = 0;
 		*qualityElementSize = 0;
 		*inoteElementSize = 0;
@@ -408,12 +410,12 @@ int ztsRegReadBlock(long long *ifltab, const char *pathname, int boolExists,
 				zsetUndefined(&notes[iposNotes], notesSizeRequested);
 				iposNotes += notesSizeRequested;
 			}
-			if ((sizeCNotesRemaning > 0) && (iposNotes < sizeCNotesRemaning)) {
-				cnotes[iposNotes++] = '\0';
+			if ((sizeCNotesRemaning > 0) && (iposCnotes < sizeCNotesRemaning)) {
+				cnotes[iposCnotes++] = '\0';
 			}
 		}
 		if (cnotes) {
-			*numberCnotes = iposNotes;
+			*numberCnotes = iposCnotes;
 		}
 		else {
 			*numberCnotes = 0;
diff --git a/heclib/heclib_c/src/Internal/ztsRetrieveReg7.c b/heclib/heclib_c/src/Internal/ztsRetrieveReg7.c
index affb916..30c587d 100644
--- a/heclib/heclib_c/src/Internal/ztsRetrieveReg7.c
+++ b/heclib/heclib_c/src/Internal/ztsRetrieveReg7.c
@@ -406,15 +406,16 @@ int ztsRetrieveReg7(long long *ifltab, zStructTimeSeries *tss,
 					tss->inoteElementSize = inoteElementSize;
 				}
 				if (timeSeriesRecordSizes.tsCnotesLength) {
-					tss->cnotes = (char *)calloc((size_t)timeSeriesRecordSizes.tsCnotesLength, CHAR_SIZE);
+					//  A value without a note, in a block that has none, takes one byte (an empty note)
+					tss->cnotesSize = timeSeriesRecordSizes.tsCnotesLength + numberToRead;
+					tss->cnotes = (char *)calloc((size_t)tss->cnotesSize, CHAR_SIZE);
 					if (!tss->cnotes) {
 						if (buffer) free(buffer);
 						return zerrorProcessing(ifltab, DSS_FUNCTION_ztsRetrieveReg_ID,
-							zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, timeSeriesRecordSizes.tsCnotesLength, 0,
+							zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, tss->cnotesSize, 0,
 							zdssErrorSeverity.MEMORY_ERROR, tss->pathname, "Allocating cnotes array");
 					}
 					tss->allocated[zSTRUCT_TS_cnotes] = 1;
-					tss->cnotesSize = timeSeriesRecordSizes.tsCnotesLength;
 				}
 			}
 			else {
@@ -640,8 +641,9 @@ int ztsRetrieveReg7(long long *ifltab, zStructTimeSeries *tss,
 				charLong(&info[zdssInfoKeys.kinfoProgram], tss->programName, 0, zdssVals.numberProgram, 0, 1);
 				foundOne = 1;
 			} 
-			totalNumberCnotesRead += lengthCNotes;
 		}
+		//  A block without a record gives an empty note for each of its values
+		totalNumberCnotesRead += lengthCNotes;
 
 
 		//  Increment block start date
-- 
2.43.0


From a386985644fc8ca0ac50c4858fdf6c0bf7321ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:29 +0000
Subject: [PATCH 33/75] fix: reading irregular character notes over blocks
 without notes shifted or repeated them

---
 heclib/heclib_c/src/Internal/ztsIrregReadBlock.c | 12 ++++++++++--
 heclib/heclib_c/src/Internal/ztsRetrieveIrreg7.c |  3 ++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/ztsIrregReadBlock.c b/heclib/heclib_c/src/Internal/ztsIrregReadBlock.c
index 6fbefb5..d2e05e4 100644
--- a/heclib/heclib_c/src/Internal/ztsIrregReadBlock.c
+++ b/heclib/heclib_c/src/Internal/ztsIrregReadBlock.c
@@ -241,6 +241,7 @@ int ztsIrregReadBlock(long long *ifltab, const char *pathname, long long *info,
 	int start;
 	int end;
 	int iposNotes;
+	int numberNotes;
 	int len;
 	int endPos;
 	int icount;
@@ -577,8 +578,11 @@ int ztsIrregReadBlock(long long *ifltab, const char *pathname, long long *info,
 			}
 		}
 		*numberRead = ipos;
+		*totalNumberCnotesRead = 0;
 		if (end > -1) {
 			iposNotes = 0;
+			numberNotes = 0;
+			icount = 0;
 			//  We need to find the location of the first note requested
 			if (cnotesLength > 0) {
 				if (start > 0) {
@@ -599,6 +603,7 @@ int ztsIrregReadBlock(long long *ifltab, const char *pathname, long long *info,
 					len = strnlen_hec(&cnotesRead[endPos], (size_t)cnotesLength);
 					endPos += len + 1;
 					cnotesLength -= len + 1;
+					numberNotes++;
 					if (cnotesLength <= 0) {
 						break;
 					}
@@ -610,12 +615,15 @@ int ztsIrregReadBlock(long long *ifltab, const char *pathname, long long *info,
 				if (len > sizeCNotesRemaning) {
 					endPos -= (len - sizeCNotesRemaning);
 				}
-				icount = 0;
 				for (i=iposNotes; i<endPos; i++) {
 					cnotes[icount++] = cnotesRead[i];
 				}
-				*totalNumberCnotesRead = endPos - iposNotes;
 			}
+			//  A value without a stored note has an empty one
+			for (i=numberNotes; (i<ipos) && (icount<sizeCNotesRemaning); i++) {
+				cnotes[icount++] = '\0';
+			}
+			*totalNumberCnotesRead = icount;
 		}
 	}
 	else {
diff --git a/heclib/heclib_c/src/Internal/ztsRetrieveIrreg7.c b/heclib/heclib_c/src/Internal/ztsRetrieveIrreg7.c
index 85f59f0..e0ca1ab 100644
--- a/heclib/heclib_c/src/Internal/ztsRetrieveIrreg7.c
+++ b/heclib/heclib_c/src/Internal/ztsRetrieveIrreg7.c
@@ -491,7 +491,8 @@ int ztsRetrieveIrreg7(long long *ifltab, zStructTimeSeries *tss,
 			tss->inoteElementSize = inoteElementSize;
 		}
 		else if (timeSeriesRecordSizes.tsCnotesLength) {
-			tss->cnotesSize = timeSeriesRecordSizes.tsCnotesLength;
+			//  A value without a note, in a block that has none, takes one byte (an empty note)
+			tss->cnotesSize = timeSeriesRecordSizes.tsCnotesLength + maxValues;
 			tss->cnotes = (char *)calloc((size_t)tss->cnotesSize, CHAR_SIZE);
 			if (!tss->cnotes) {
 				return zerrorProcessing(ifltab, DSS_FUNCTION_ztsRetrieveIrreg_ID,
-- 
2.43.0


From bb2ae92cff162ffbb14411db99ceac5a46639648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:43 +0000
Subject: [PATCH 34/75] fix: rewriting a record with the other precision left
 the old data type in the catalogue

---
 heclib/heclib_c/src/Internal/zwriteExisting.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zwriteExisting.c b/heclib/heclib_c/src/Internal/zwriteExisting.c
index 9061e2f..efedf46 100644
--- a/heclib/heclib_c/src/Internal/zwriteExisting.c
+++ b/heclib/heclib_c/src/Internal/zwriteExisting.c
@@ -225,9 +225,12 @@ int zwriteExisting(long long *ifltab, zStructTransfer* ztransfer,
 	i8toi4(ifltab[zdssKeys.kdataFirstDate], &julianFirst, &temp);
 	i8toi4(ifltab[zdssKeys.kdataLastDate],  &julianLast,  &temp);
 	ifltab[zdssKeys.kbinDates] = i4toi8(julianFirst, julianLast);
-	address = ifltab[zdssKeys.kinfoAddInBin] - zdssBinKeys.kbinInfoAdd +  zdssBinKeys.kbinLastWrite;
+	//  The type may have changed (floats to doubles or back)
+	i8toi4(ifltab[zdssKeys.kbinTypeAndCatSort], &type, &temp);
+	ifltab[zdssKeys.kbinTypeAndCatSort] = i4toi8(ztransfer->dataType, temp);
+	address = ifltab[zdssKeys.kinfoAddInBin] - zdssBinKeys.kbinInfoAdd +  zdssBinKeys.kbinTypeAndCatSort;
 
-	status = zput(ifltab, address, (int *)&ifltab[zdssKeys.kbinLastWrite], 2, 2);
+	status = zput(ifltab, address, (int *)&ifltab[zdssKeys.kbinTypeAndCatSort], 3, 2);
 	if (zisError(status)) {
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zwriteExisting_ID);
 	}
-- 
2.43.0


From a394c59052ff400974b64044214d14ecff0d610e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:18 +0000
Subject: [PATCH 35/75] fix: integer notes over a block with character notes
 left bytes of one read as the other

---
 heclib/heclib_c/src/Internal/ztsWriteBlock.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/heclib/heclib_c/src/Internal/ztsWriteBlock.c b/heclib/heclib_c/src/Internal/ztsWriteBlock.c
index 72d20b0..6af2d39 100644
--- a/heclib/heclib_c/src/Internal/ztsWriteBlock.c
+++ b/heclib/heclib_c/src/Internal/ztsWriteBlock.c
@@ -175,6 +175,11 @@ int ztsWriteBlock (long long *ifltab, zStructTimeSeries *tss, const char* pathna
 	internalHeader[INT_HEAD_precision] = tss->precision;
 	internalHeader[INT_HEAD_timeOffset] = tss->timeOffsetSeconds;
 
+	//  A record has either integer or character notes; integer notes replace those already there
+	if (inoteElementSize > 0) {
+		lengthCNotes = 0;
+	}
+
 	//  We never compress time array
 	ztsAggregate(ifltab, numberValues, internalHeader,
 				timeArray, boolUseTimes,
-- 
2.43.0


From 3f5626b9a9df031311e31206ea77380918a59358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:28 +0000
Subject: [PATCH 36/75] fix: partial paired data store keeps the labels of
 untouched curves and longer new labels

---
 heclib/heclib_c/src/Public/zpdStore.c | 95 +++++++++++++++------------
 1 file changed, 54 insertions(+), 41 deletions(-)

diff --git a/heclib/heclib_c/src/Public/zpdStore.c b/heclib/heclib_c/src/Public/zpdStore.c
index 5cfb84d..2b978df 100644
--- a/heclib/heclib_c/src/Public/zpdStore.c
+++ b/heclib/heclib_c/src/Public/zpdStore.c
@@ -223,7 +223,6 @@ int zpdStore(long long *ifltab, zStructPairedData *pds, int storageFlag)
 	int offset;
 	int ipos;
 	int i;
-	int j;
 	int numberBytes;
 	int labelsLength;
 	int len;
@@ -236,7 +235,6 @@ int zpdStore(long long *ifltab, zStructPairedData *pds, int storageFlag)
 	int originalSize;
 	int newSize;
 	int len1;
-	int len2;
 
 	int internalHeader[INT_HEAD_SIZE];
 	int internalHeaderNumber = INT_HEAD_SIZE;
@@ -1064,51 +1062,49 @@ int zpdStore(long long *ifltab, zStructPairedData *pds, int storageFlag)
 		//  If labels are being stored, add them in
 		//  len = pds->labelsLength  internalHeader[INT_HEAD_pdLabelsLength] = pds->labelsLength;
 		if (pds->labelsLength > 0) {
-			len = pds->labelsLength + ztransfer->internalHeader[INT_HEAD_pdLabelsLength];
-			clabels = (char *)calloc((size_t)len, 1);
-			clabelsRead = (char*)calloc(ztransfer->internalHeader[INT_HEAD_pdLabelsLength], 1);
-			charInt(ztransfer->header2, clabelsRead, ztransfer->internalHeader[INT_HEAD_pdLabelsLength], ztransfer->internalHeader[INT_HEAD_pdLabelsLength], 0, 0, 0);
+			//  Build the complete label array: our labels for the curves being stored,
+			//  those on disk for the others (an empty label if there is none)
+			numberCurves = ztransfer->internalHeader[INT_HEAD_pdNumberCurves];
+			len1 = ztransfer->internalHeader[INT_HEAD_pdLabelsLength];
+			if (len1 > ztransfer->header2Number * 4) len1 = ztransfer->header2Number * 4;
+			clabelsRead = (char*)calloc((size_t)len1 + 1, 1);
+			clabels = (char *)calloc((size_t)(pds->labelsLength + len1 + numberCurves), 1);
+			if (!clabels || !clabelsRead) {
+				if (clabels) free(clabels);
+				if (clabelsRead) free(clabelsRead);
+				zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+				zstructFree(ztransfer);
+				FREE_TEMPS_AND_RESTORE
+				return zerrorProcessing(ifltab, DSS_FUNCTION_zpdStore_ID,
+										zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, pds->labelsLength, 0,
+										zdssErrorSeverity.MEMORY_ERROR, pds->pathname, "Allocating labels");
+			}
+			if (len1 > 0) {
+				charInt(ztransfer->header2, clabelsRead, len1, len1, 0, 0, 0);
+			}
 			ipos = 0;
 			iposRead = 0;
 			iposPds = 0;
-			curveNumber = 1;
-			for (i=0; i<len; i++) {
-				//  Are we at a curve to add our label?
-				if ((curveNumber >= pds->startingCurve) && (curveNumber <= pds->endingCurve)) {
-					len1 = (int)strlen(&pds->labels[iposPds]);
-					for (j=0; j<len1; j++) {
+			for (curveNumber=0; curveNumber<numberCurves; curveNumber++) {
+				if ((curveNumber >= startCurve) && (curveNumber < endCurve) && (iposPds < pds->labelsLength)) {
+					while ((iposPds < pds->labelsLength) && pds->labels[iposPds]) {
 						clabels[ipos++] = pds->labels[iposPds++];
 					}
-					clabels[ipos++] = '\0';
-					len2 = (int)strlen(&clabelsRead[iposRead]);
-					iposRead += len2 + 1;
-					curveNumber++;
-				}
-				else {
-					clabels[ipos] = clabelsRead[iposRead++];
-					if (clabels[ipos] == '\0') curveNumber++;
-					ipos++;
-				}
-				if (curveNumber > ztransfer->internalHeader[INT_HEAD_pdNumberCurves]) {
-					break;
-				}
-				if (ipos >= len) {
-					break;
+					iposPds++;
 				}
-				if (iposRead >= (ztransfer->header2Number * 4)) {
-					break;
+				else if (iposRead < len1) {
+					len = (int)strlen(&clabelsRead[iposRead]);
+					memcpy(&clabels[ipos], &clabelsRead[iposRead], (size_t)len);
+					ipos += len;
 				}
+				ipos++;  //  null term
+				if (iposRead < len1) iposRead += (int)strlen(&clabelsRead[iposRead]) + 1;
 			}
-			if (clabelsRead) free(clabelsRead);
+			free(clabelsRead);
 			clabelsRead = 0;
+			labelsLength = ipos;
 			originalSize = (int)ztransfer->info[zdssInfoKeys.kinfoHeader2Number];
-			if (ipos > ztransfer->internalHeader[INT_HEAD_pdLabelsLength]) {
-				newSize = numberIntsInBytes(ipos);
-				ztransfer->internalHeader[INT_HEAD_pdLabelsLength] = ipos;
-			}
-			else {
-				newSize = originalSize;
-			}
+			newSize = numberIntsInBytes(labelsLength);
 			if (newSize > originalSize) {
 				//  This is a pretty significant issue; paired data records are not designed
 				//  to be efficient at expansion
@@ -1155,18 +1151,35 @@ int zpdStore(long long *ifltab, zStructPairedData *pds, int storageFlag)
 					return status;
 				}
 				//  Now we have the full record.  Replace the label array
-				free(ztransfer->header2);
+				if (ztransfer->header2) free(ztransfer->header2);
 				ztransfer->header2 = (int *)calloc(newSize + 2, 4);
-				charInt(clabels, ztransfer->header2, ztransfer->internalHeader[INT_HEAD_pdLabelsLength], (newSize * 4), 1, 1, 0);
+				ztransfer->allocated[zSTRUCT_TRANS_header2] = 1;
+				charInt(clabels, ztransfer->header2, labelsLength, (newSize * 4), 1, 1, 0);
 				ztransfer->header2Number = newSize;
-				ztransfer->internalHeader[INT_HEAD_pdLabelsLength] = newSize * 4;
+				if (bigEndian()) {
+					zswitchInts(ztransfer->internalHeader, INT_HEAD_pdPrecision);
+				}
+				ztransfer->internalHeader[INT_HEAD_pdLabelsLength] = labelsLength;
+				if (bigEndian()) {
+					zswitchInts(ztransfer->internalHeader, INT_HEAD_pdPrecision);
+				}
 				//  RE-write the whole thing
 				status = zwrite (ifltab, ztransfer);
 			}
 			else {
 				address = ztransfer->info[zdssInfoKeys.kinfoHeader2Address];
-				charInt(clabels, ztransfer->header2, ztransfer->internalHeader[INT_HEAD_pdLabelsLength], (originalSize * 4), 1, 1, 0);
+				memset(ztransfer->header2, 0, (size_t)originalSize * 4);
+				charInt(clabels, ztransfer->header2, labelsLength, (originalSize * 4), 1, 1, 0);
 				status = zputBuff(ifltab, address, ztransfer->header2, originalSize, 1, BUFF_WRITE, bufferControl, buffer);
+				if ((status == STATUS_OKAY) && (labelsLength != ztransfer->internalHeader[INT_HEAD_pdLabelsLength])) {
+					//  The number of characters is kept in the internal header
+					ztransfer->internalHeader[INT_HEAD_pdLabelsLength] = labelsLength;
+					if (bigEndian()) {
+						zswitchInts(ztransfer->internalHeader, INT_HEAD_pdPrecision);
+					}
+					address = ztransfer->info[zdssInfoKeys.kinfoInternalHeadAddress];
+					status = zputBuff(ifltab, address, ztransfer->internalHeader, ztransfer->internalHeaderNumber, 1, BUFF_WRITE, bufferControl, buffer);
+				}
 			}
 			if (clabels) {
 				free(clabels);
-- 
2.43.0


From 9f4616e7b66f21ed767911a9f94c7b39ee0199f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:28 +0000
Subject: [PATCH 37/75] fix: partial paired data read returns the labels for
 open ended curve ranges

---
 heclib/heclib_c/src/Public/zpdRetrieve.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/heclib/heclib_c/src/Public/zpdRetrieve.c b/heclib/heclib_c/src/Public/zpdRetrieve.c
index 4e28509..0b68272 100644
--- a/heclib/heclib_c/src/Public/zpdRetrieve.c
+++ b/heclib/heclib_c/src/Public/zpdRetrieve.c
@@ -375,7 +375,7 @@ int zpdRetrieve(long long *ifltab, zStructPairedData *pds, int retrieveSizeFlag)
 			startCurve = pds->startingCurve - 1;
 			endCurve = pds->endingCurve;
 			if (startCurve < 0) startCurve = 0;
-			if (endCurve < 0) endCurve = 0;
+			if ((endCurve <= 0) || (endCurve > pds->numberCurves)) endCurve = pds->numberCurves;
 		}
 		count = 0;
 		ipos = 0;
@@ -393,8 +393,9 @@ int zpdRetrieve(long long *ifltab, zStructPairedData *pds, int retrieveSizeFlag)
 		}
 		//  Now copy the labels
 		pds->labelsLength = count;
-		pds->labels = (char *)calloc((size_t)pds->labelsLength, 1);
+		pds->labels = (char *)calloc((size_t)pds->labelsLength + 1, 1);
 		if (!pds->labels) {
+			free(clabels);
 			zstructFree(ztransfer);
 			return zerrorProcessing(ifltab, DSS_FUNCTION_zpdRetrieve_ID,
 									zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, pds->labelsLength, 0,
-- 
2.43.0


From 64cda13a953fab943ede9dedb37346561cab4dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:28 +0000
Subject: [PATCH 38/75] fix: exporting a missing text record or to an
 impossible file reports the failure

---
 heclib/heclib_c/src/Public/ztextRetrieveToFile.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Public/ztextRetrieveToFile.c b/heclib/heclib_c/src/Public/ztextRetrieveToFile.c
index a8fc12b..48ae41f 100644
--- a/heclib/heclib_c/src/Public/ztextRetrieveToFile.c
+++ b/heclib/heclib_c/src/Public/ztextRetrieveToFile.c
@@ -76,6 +76,11 @@ int ztextRetrieveToFile(long long *ifltab, const char *pathname, const char *fil
 		zstructFree(textStruct);
 		return status;
 	}
+	if (status != STATUS_OKAY) {
+		//  No such record: there is nothing to write a file from
+		zstructFree(textStruct);
+		return status;
+	}
 
 #ifdef _MSC_VER
 	status = fopen_s(&textFileFP, filename, "w");
@@ -89,7 +94,7 @@ int ztextRetrieveToFile(long long *ifltab, const char *pathname, const char *fil
 	}
 #endif
 	if (status != 0) {
-		fclose(textFileFP);
+		zstructFree(textStruct);
 		return zerrorProcessing(ifltab, DSS_FUNCTION_ztextRetrieve_ID,
 					zdssErrorCodes.UNABLE_TO_WRITE_FILE, status, 0,
 					zdssErrorSeverity.WARNING, pathname, filename);
-- 
2.43.0


From b9958f44ddb39eeed05b36d1d3f2165835510223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:28 +0000
Subject: [PATCH 39/75] fix: free the text structure and table after importing
 a text file

---
 heclib/heclib_c/src/Public/ztextStoreFromFile.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/heclib/heclib_c/src/Public/ztextStoreFromFile.c b/heclib/heclib_c/src/Public/ztextStoreFromFile.c
index c0cf50e..caac48b 100644
--- a/heclib/heclib_c/src/Public/ztextStoreFromFile.c
+++ b/heclib/heclib_c/src/Public/ztextStoreFromFile.c
@@ -90,6 +90,7 @@ int ztextStoreFromFile(long long *ifltab, const char *pathname, const char *file
 	}
 #endif
 	if (status != 0) {
+		zstructFree(textStruct);
 		return zerrorProcessing(ifltab, DSS_FUNCTION_ztextStore_ID,
 					zdssErrorCodes.UNABLE_TO_ACCESS_FILE, status, 0,
 					zdssErrorSeverity.WARNING, pathname, filename);
@@ -104,11 +105,14 @@ int ztextStoreFromFile(long long *ifltab, const char *pathname, const char *file
 	//  Allocate space
 	textStruct->textTable = (char *)malloc((size_t)numberCharacters);
 	if (!textStruct->textTable) {
+		fclose(textFileFP);
+		zstructFree(textStruct);
 		return zerrorProcessing(ifltab, DSS_FUNCTION_ztextStore_ID,
 								zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, numberCharacters, 0,
 								zdssErrorSeverity.MEMORY_ERROR,
 								pathname, "Allocating textTable");
 	}
+	textStruct->allocated[zSTRUCT_TX_textTable] = 1;
 	textStruct->numberRows = numberLines;
 	textStruct->numberColumns = 1;
 	textStruct->numberTableChars = numberCharacters;
-- 
2.43.0


From ff40eee50a9ac2bc784cab698f7e721295de0c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:40 +0000
Subject: [PATCH 40/75] fix: hec_dss_textStore stores the text it is given, not
 a truncated copy

---
 heclib/hecdss/hecdss.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/heclib/hecdss/hecdss.c b/heclib/hecdss/hecdss.c
index c69221c..ef5387b 100644
--- a/heclib/hecdss/hecdss.c
+++ b/heclib/hecdss/hecdss.c
@@ -936,8 +936,7 @@ HECDSS_API int hec_dss_textStore(dss_file* dss, const char* pathname, const char
 
   zStructText* txt = zstructTextNew(pathname);
 
-  txt->textString = mallocAndCopy(text);
-  txt->allocated[zSTRUCT_TX_textString] = 1;
+  txt->textString = (char*)text; // not copied: a copy would end at the first non-ASCII character
   txt->numberTextChars = length;
 
   int status = ztextStore(dss->ifltab, txt);
-- 
2.43.0


From 08191f0c981e9016ad3bfac1b7652e3a18c64cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:23 +0000
Subject: [PATCH 41/75] fix: storing a TIN without point labels; TIN texts with
 trailing blanks

---
 heclib/heclib_c/src/Public/zspatialTinRetrieve.c | 12 ++++++------
 heclib/heclib_c/src/Public/zspatialTinStore.c    |  5 ++++-
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/heclib/heclib_c/src/Public/zspatialTinRetrieve.c b/heclib/heclib_c/src/Public/zspatialTinRetrieve.c
index 59d774d..335a1bc 100644
--- a/heclib/heclib_c/src/Public/zspatialTinRetrieve.c
+++ b/heclib/heclib_c/src/Public/zspatialTinRetrieve.c
@@ -150,27 +150,27 @@ int zspatialTinRetrieve(long long *ifltab, zStructSpatialTin *tinStruct, int boo
 
 	count = 0;
 	tinStruct->SpatialReferenceSystem = mallocAndCopy(&str[count]);
-	len = strlen(tinStruct->SpatialReferenceSystem);
+	len = strlen(&str[count]);
 	count += len;
 	count++;	//  null terminator
 	tinStruct->SRSName = mallocAndCopy(&str[count]);
-	len = strlen(tinStruct->SRSName);
+	len = strlen(&str[count]);
 	count += len;
 	count++;
 	tinStruct->SRSUnits = mallocAndCopy(&str[count]);
-	len = strlen(tinStruct->SRSUnits);
+	len = strlen(&str[count]);
 	count += len;
 	count++;
 	tinStruct->units = mallocAndCopy(&str[count]);
-	len = strlen(tinStruct->units);
+	len = strlen(&str[count]);
 	count += len;
 	count++;
 	tinStruct->type = mallocAndCopy(&str[count]);
-	len = strlen(tinStruct->type);
+	len = strlen(&str[count]);
 	count += len;
 	count++;
 	tinStruct->timeZoneName = mallocAndCopy(&str[count]);
-	len = strlen(tinStruct->timeZoneName);
+	len = strlen(&str[count]);
 	count += len;
 	count++;
 
diff --git a/heclib/heclib_c/src/Public/zspatialTinStore.c b/heclib/heclib_c/src/Public/zspatialTinStore.c
index ffe88dd..5205d30 100644
--- a/heclib/heclib_c/src/Public/zspatialTinStore.c
+++ b/heclib/heclib_c/src/Public/zspatialTinStore.c
@@ -194,7 +194,10 @@ int zspatialTinStore(long long *ifltab, zStructSpatialTin *tinStruct)
 	ztransfer->userHeader = (int *)calloc(ztransfer->userHeaderNumber + 2, 4);
 	ztransfer->header2Mode = 1;
 	//  Need to be sure to copy char into in array, not cast and assign to header
-	 charInt (tinStruct->pointLabel, ztransfer->userHeader, tinStruct->pointLabelLen, (ztransfer->userHeaderNumber * 4), 1, 1, 0);
+	//  (a length of zero would make charInt look for a null terminator)
+	if (tinStruct->pointLabel && (tinStruct->pointLabelLen > 0)) {
+		charInt (tinStruct->pointLabel, ztransfer->userHeader, tinStruct->pointLabelLen, (ztransfer->userHeaderNumber * 4), 1, 1, 0);
+	}
 
 	 //  Values 1, x, y, value
 	 ztransfer->values1Number = 3 * tinStruct->numberPoints;
-- 
2.43.0


From 88c20b31bdd0d8ae382794c2a69566c511e6ed6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:23 +0000
Subject: [PATCH 42/75] fix: reading a record without any data returned an
 uninitialised status

---
 heclib/heclib_c/src/Internal/zreadInternal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Internal/zreadInternal.c b/heclib/heclib_c/src/Internal/zreadInternal.c
index 8964f36..164327e 100644
--- a/heclib/heclib_c/src/Internal/zreadInternal.c
+++ b/heclib/heclib_c/src/Internal/zreadInternal.c
@@ -231,7 +231,7 @@
 int zreadInternal(long long *ifltab, zStructTransfer* ztransfer,
 				  long long bufferControl[4], int *buffer, int boolUseBuffer)
 {
-	int status;
+	int status = STATUS_OKAY;
 	int bufferAction;
 	int totalNumber;
 	int number;
-- 
2.43.0


From a605952e75f2fe145305c62dbee2b873f0cdf94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:01 +0000
Subject: [PATCH 43/75] fix: location texts are terminated and long pathnames
 do not lose the location on delete

---
 heclib/heclib_c/src/Public/zlocationDelete.c   | 2 +-
 heclib/heclib_c/src/Public/zlocationRetrieve.c | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/heclib/heclib_c/src/Public/zlocationDelete.c b/heclib/heclib_c/src/Public/zlocationDelete.c
index 2106d06..a4cc72a 100644
--- a/heclib/heclib_c/src/Public/zlocationDelete.c
+++ b/heclib/heclib_c/src/Public/zlocationDelete.c
@@ -13,7 +13,7 @@ int zlocationDelete(long long *ifltab, const char* pathname)
 {
 	int status;
 	int positions[7];
-	char locationPathname[200];
+	char locationPathname[MAX_PATHNAME_SIZE + 20];
 
 	zpathnamePartPositions (pathname, strlen(pathname), positions, 7);
 	stringCopy (locationPathname, sizeof(locationPathname), pathname, (size_t)positions[2]) ;
diff --git a/heclib/heclib_c/src/Public/zlocationRetrieve.c b/heclib/heclib_c/src/Public/zlocationRetrieve.c
index 4f95b51..a4ee2c0 100644
--- a/heclib/heclib_c/src/Public/zlocationRetrieve.c
+++ b/heclib/heclib_c/src/Public/zlocationRetrieve.c
@@ -201,7 +201,7 @@ int zlocationRetrieve(long long *ifltab, zStructLocation *locationStruct)
 		nwords = ztransfer->values1Number - count;
 		len = nwords * 4;
 		if (len > 0) {
-			locationStruct->timeZoneName = (char *)malloc(len + 8);
+			locationStruct->timeZoneName = (char *)calloc(len + 8, 1);
 			locationStruct->allocated[zSTRUCT_timeZoneName] = 1;
 			charInt ((void *)&ztransfer->values1[count], locationStruct->timeZoneName, len, len, 0, 1, 0);
 		}
@@ -210,7 +210,7 @@ int zlocationRetrieve(long long *ifltab, zStructLocation *locationStruct)
 	//  Supplemental information
 	if (ztransfer->values2Number > 0) {
 		len = ztransfer->values2Number * 4;
-		locationStruct->supplemental = (char *)malloc(len + 8);
+		locationStruct->supplemental = (char *)calloc(len + 8, 1);
 		locationStruct->allocated[zSTRUCT_otherInformation] = 1;
 		charInt ((void *)ztransfer->values2, locationStruct->supplemental, len, len, 0, 1, 0);
 	}
-- 
2.43.0


From 605dd8c361b0564e7535e7664d2e974cfae9e348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:42 +0000
Subject: [PATCH 44/75] fix: two-digit year styles printed year 100 as 10

---
 heclib/heclib_c/src/Utilities/DateTime/yearMonthDayToDate.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Utilities/DateTime/yearMonthDayToDate.c b/heclib/heclib_c/src/Utilities/DateTime/yearMonthDayToDate.c
index 18c3a28..8da03cc 100644
--- a/heclib/heclib_c/src/Utilities/DateTime/yearMonthDayToDate.c
+++ b/heclib/heclib_c/src/Utilities/DateTime/yearMonthDayToDate.c
@@ -112,7 +112,7 @@ int yearMonthDayToDate(int year, int month, int day, int style, char *dateString
 			style += 100;
 		}
 		else {
-			if (year > 100)
+			if (year >= 100)
 				year = year % 100;
 			intTo2char(year, charYear);
 		}
-- 
2.43.0


From 392a43fc9bbffe11d1eb2e36402dbdf538cb3fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:42 +0000
Subject: [PATCH 45/75] fix: numberPeriods of yearly intervals counted the
 months as years

---
 heclib/heclib_c/src/Utilities/DateTime/numberPeriods.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/heclib/heclib_c/src/Utilities/DateTime/numberPeriods.c b/heclib/heclib_c/src/Utilities/DateTime/numberPeriods.c
index 8e39f0d..a2205ed 100644
--- a/heclib/heclib_c/src/Utilities/DateTime/numberPeriods.c
+++ b/heclib/heclib_c/src/Utilities/DateTime/numberPeriods.c
@@ -161,9 +161,9 @@ int numberPeriods(int intervalSeconds,
 		}
 		else if ((intervalMinutes > 520000) && (intervalMinutes < 530000)) {
 			//  Yearly
-			numberPeriods = (yearEnd - yearStart) +
-							((monthEnd - monthStart) +
-							((dayEnd - dayStart) / 28) / 12);
+			numberPeriods = (((yearEnd - yearStart) * 12) +
+							(monthEnd - monthStart) +
+							((dayEnd - dayStart) / 28)) / 12;
 		}
 		else {
 			//  Unknown - just do straight day computation 
-- 
2.43.0


From bf7e5c67773758140f7f357cba5700292e9f6562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:42 +0000
Subject: [PATCH 46/75] fix: zpathnameClean and zpathnameSetPart wrote one byte
 beyond the buffer

---
 heclib/heclib_c/src/Public/zpathnameClean.c   | 2 +-
 heclib/heclib_c/src/Public/zpathnameSetPart.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/heclib/heclib_c/src/Public/zpathnameClean.c b/heclib/heclib_c/src/Public/zpathnameClean.c
index 4cfdb8b..8a81122 100644
--- a/heclib/heclib_c/src/Public/zpathnameClean.c
+++ b/heclib/heclib_c/src/Public/zpathnameClean.c
@@ -72,7 +72,7 @@ int zpathnameClean(char *newPathname, size_t sizeofNewPathname, const char *oldP
 			//  Count slashes
 			slashCount++;
 		}
-		if (count >= (int)sizeofNewPathname) {
+		if (count >= (int)sizeofNewPathname - 1) {
 			//  Don't go beyond buffer length
 			break;
 		}
diff --git a/heclib/heclib_c/src/Public/zpathnameSetPart.c b/heclib/heclib_c/src/Public/zpathnameSetPart.c
index 3cd2d92..c7d99cd 100644
--- a/heclib/heclib_c/src/Public/zpathnameSetPart.c
+++ b/heclib/heclib_c/src/Public/zpathnameSetPart.c
@@ -95,7 +95,7 @@ int zpathnameSetPart (char *pathname, size_t sizeofPathname, const char *part, i
 		//  To do this, we must increment negatively.
 		diff = newLength - oldLength;
 		endPath = positions[6] + diff;
-		if (endPath > (int)sizeofPathname) {
+		if (endPath >= (int)sizeofPathname) {
 			//  We don't have enough room to expand the pathname!
 			return STATUS_NOT_OKAY;
 		}
-- 
2.43.0


From 48544e670e3c297ac462dbe05d8803f081228570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:42 +0000
Subject: [PATCH 47/75] fix: yearly offset of 01Mar fell on 29Feb in leap years

---
 heclib/heclib_c/src/Public/ztsOffsetAdjustToOffset.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/heclib/heclib_c/src/Public/ztsOffsetAdjustToOffset.c b/heclib/heclib_c/src/Public/ztsOffsetAdjustToOffset.c
index 85883b9..531ee92 100644
--- a/heclib/heclib_c/src/Public/ztsOffsetAdjustToOffset.c
+++ b/heclib/heclib_c/src/Public/ztsOffsetAdjustToOffset.c
@@ -118,8 +118,8 @@ int ztsOffsetAdjustToOffset(int offsetSeconds, int intervalSeconds, int *julian,
 		julianToYearMonthDay (*julian, &year, &month, &day);
 		if (isLeapYear(year)) {
 			if (year > 0) {
-				//  Need to account for leap day
-				if (month > 2) {
+				//  Need to account for leap day (01Mar falls on 29Feb without it)
+				if ((month > 2) || ((month == 2) && (day == 29))) {
 					(*julian)++;
 				}
 			}
-- 
2.43.0


From 1fc23b2803f8127218cc25e0f11b5ed00816540b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:42 +0000
Subject: [PATCH 48/75] fix: zisaCollection took text beyond the beginning of
 the F part for a collection mark

---
 heclib/heclib_c/src/Internal/zisaCollection.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/heclib/heclib_c/src/Internal/zisaCollection.c b/heclib/heclib_c/src/Internal/zisaCollection.c
index 7ded232..7e9253a 100644
--- a/heclib/heclib_c/src/Internal/zisaCollection.c
+++ b/heclib/heclib_c/src/Internal/zisaCollection.c
@@ -86,6 +86,8 @@ int zisaCollection(char* pathname, size_t pathLength)
 				(pathname[i+2] == ':')) {
 					return (i+1);
 			}
+			//  Beginning of the F part, and not a collection
+			return 0;
 		}
 	}
 	return 0;
-- 
2.43.0


From 82be836260840cc61acb4c2d0453791caa13726d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:41 +0000
Subject: [PATCH 49/75] fix: zlockActive keeps the level of a lock taken while
 the file is already locked

---
 heclib/heclib_c/src/Internal/zlockActive.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/heclib/heclib_c/src/Internal/zlockActive.c b/heclib/heclib_c/src/Internal/zlockActive.c
index d183c3a..91ab8e6 100644
--- a/heclib/heclib_c/src/Internal/zlockActive.c
+++ b/heclib/heclib_c/src/Internal/zlockActive.c
@@ -380,6 +380,11 @@ int zlockingOld(long long *ifltab, int level, int lock, int flush);
 					zpermRead(ifltab);
 				}
 			}
+			else {
+				//  Already locked (e.g., retained in single-user advisory mode);
+				//  this level now controls when it may be unlocked
+				ifltab[zdssKeys.klockLevel] = level;
+			}
 			//  Save PID on first write
 			if (ifltab[zdssKeys.kpidMyAddress] == 0) {
 				zpidWrite(ifltab);
-- 
2.43.0


From d8d795b3f08e38e2580a07f786adfa41ff05ebda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:41 +0000
Subject: [PATCH 50/75] fix: zrename replaces the target record under a single
 lock

---
 heclib/heclib_c/src/Public/zrename.c | 49 ++++++++++++++++------------
 1 file changed, 28 insertions(+), 21 deletions(-)

diff --git a/heclib/heclib_c/src/Public/zrename.c b/heclib/heclib_c/src/Public/zrename.c
index 75f3aaf..9b0a1f9 100644
--- a/heclib/heclib_c/src/Public/zrename.c
+++ b/heclib/heclib_c/src/Public/zrename.c
@@ -157,11 +157,20 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 		}
 	}
 	
+	//  Lock the file if we are in a multi-user access mode
+	//  And read the file header.  A record at the new pathname is removed under the same lock.
+	status =  zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_ON, LOCKING_FLUSH_ON);
+	if (zisError(status)) {
+		free(newPath);
+		return zerrorEncodeHigh(status, DSS_FUNCTION_zrename_ID);
+	}
+
 	//  Be sure the old pathname does exist (before a record at the new pathname is removed)
 	ifltab[zdssKeys.kaddInfoLastPath] = 0;
 	status = zcheckInternal(ifltab, oldPathname, 1);
 	if (zisError(status)) {
 		free(newPath);
+		zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zrename_ID);
 	}
 	if ((status != STATUS_RECORD_FOUND) || (ifltab[zdssKeys.kbinStatus] == REC_STATUS_ALIAS)) {
@@ -170,6 +179,7 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 			zmessage2(ifltab, ZRENAME_NOT_EXIST, oldPathname);
 		}
 		free(newPath);
+		zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 		return STATUS_RECORD_NOT_FOUND;
 	}
 
@@ -184,6 +194,7 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 		len = (int)(strlen(newPathname) + strlen(oldPathname)) + 1;
 		newPath = calloc(len, 1);
 		if (!newPath) {
+			zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 			return zerrorProcessing(ifltab, DSS_FUNCTION_zrename_ID,
 				zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, 0, 0,
 				zdssErrorSeverity.MEMORY_ERROR,
@@ -197,6 +208,7 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 			//  Only the D or E parts were to be renamed, which we don't do
 			status = zrename(ifltab, oldPathname, newPath);
 			free(newPath);
+			zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 			return status;
 		}
 	}
@@ -206,6 +218,7 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 	status = zcheckInternal(ifltab, newPath, 1);
 	if (zisError(status)) {
 		free(newPath);
+		zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zrename_ID);
 	}
 	if (status == STATUS_RECORD_FOUND) {
@@ -218,6 +231,7 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 		}
 		if (zisError(status)) {
 			free(newPath);
+			zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zrename_ID);
 		}
 		if (status != STATUS_OKAY) {
@@ -226,20 +240,13 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 				zmessage2(ifltab, ZRENAME_OLD_PATH, oldPathname);
 			}
 			free(newPath);
+			zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 			return zerrorProcessing(ifltab, DSS_FUNCTION_zrename_ID,
 									zdssErrorCodes.RECORD_ALREADY_EXISTS, 0,
 									0, zdssErrorSeverity.WARNING, newPathname, "");
 		}
 	}
 
-	//  Lock the file if we are in a multi-user access mode
-	//  And read the file header
-	status =  zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_ON, LOCKING_FLUSH_ON);
-	if (zisError(status)) {
-		free(newPath);
-		return zerrorEncodeHigh(status, DSS_FUNCTION_zrename_ID);
-	}
-
 	//  Compute the new info block size
 	numberInfoNew = zdssVals.infoSize + numberLongsInBytes((int)strlen(newPath));
 
@@ -247,7 +254,7 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 	ifltab[zdssKeys.kaddInfoLastPath] = 0;
 	status = zcheckInternal(ifltab, oldPathname, 1);
 	if (zisError(status)) {
-		zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+		zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 		free(newPath);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zrename_ID);
 	}
@@ -255,7 +262,7 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 		if (zmessageLevel(ifltab, MESS_METHOD_UTILITY_ID, MESS_LEVEL_GENERAL)) {
 			zmessage2(ifltab, ZRENAME_NOT_EXIST, oldPathname);
 		}
-		zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+		zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 		free(newPath);
 		return STATUS_RECORD_NOT_FOUND;
 	}
@@ -266,7 +273,7 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 	binStatus = REC_STATUS_RENAMED;
 	status = zput(ifltab, address, (int *)&binStatus, 1, 2);
 	if (zisError(status)) {
-		zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+		zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 		free(newPath);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zrename_ID);
 	}
@@ -277,7 +284,7 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 	numberInfoOld = zdssVals.infoSize + pathnameSize;
 	status = zget(ifltab, ifltab[zdssKeys.kaddInfoLastPath], (int *)info, numberInfoOld, 2);
 	if (zisError(status)) {
-		zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+		zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 		free(newPath);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zrename_ID);
 	}
@@ -301,7 +308,7 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 		status = zput(ifltab, ifltab[zdssKeys.kaddInfoLastPath], (int *)info, numberInfoOld, 2);
 		if (zisError(status)) {
 			if (infoOld) free(infoOld);
-			zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+			zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 			free(newPath);
 			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zrename_ID);
 		}
@@ -316,7 +323,7 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 	status = zcheckInternal(ifltab, newPath, 1);
 	if (zisError(status)) {
 		if (infoOld) free(infoOld);
-		zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+		zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 		free(newPath);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zrename_ID);
 	}
@@ -327,7 +334,7 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 		status = zbinNew(ifltab);
 		if (zisError(status)) {
 			if (infoOld) free(infoOld);
-			zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+			zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 			free(newPath);
 			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zrename_ID);
 		}
@@ -336,7 +343,7 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 		status = zput(ifltab, ifltab[zdssKeys.kaddTableHash], (int *)&ifltab[zdssKeys.khashTableBinAdd], 1, 2);
 		if (zisError(status)) {
 			if (infoOld) free(infoOld);
-			zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+			zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 			free(newPath);
 			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zrename_ID);
 		}
@@ -386,7 +393,7 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 	status = zput(ifltab, ifltab[zdssKeys.kaddInfoLastPath], (int *)info, numberInfoNew, 2);
 	if (zisError(status)) {
 		if (infoOld) free(infoOld);
-		zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+		zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 		free(newPath);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zrename_ID);
 	}
@@ -407,7 +414,7 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 		}
 		if (zisError(status)) {
 			if (infoOld) free(infoOld);
-			zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+			zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 			free(newPath);
 			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zrename_ID);
 		}
@@ -417,7 +424,7 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 		status = zput(ifltab, fileHeader[zdssFileKeys.kfileSize], (int *)&eofWord, 1, 2);
 		if (zisError(status)) {
 			if (infoOld) free(infoOld);
-			zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+			zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 			free(newPath);
 			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zrename_ID);
 		}
@@ -437,7 +444,7 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 	status = zpermWrite(ifltab);
 	if (zisError(status)) {
 		if (infoOld) free(infoOld);
-		zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+		zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 		free(newPath);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zrename_ID);
 	}
@@ -447,7 +454,7 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 	}
 
 	if (infoOld) free(infoOld);
-	zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+	zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 
 	if (zmessageLevel(ifltab, MESS_METHOD_UTILITY_ID, MESS_LEVEL_USER_DIAG)) {
 		zmessageDebugInt(ifltab, DSS_FUNCTION_zrename_ID, "Exit, status: ", status);
-- 
2.43.0


From 7c7a5d6f7fd2d2d82f665fe84ad8d72c73bb7a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:41 +0000
Subject: [PATCH 51/75] fix: zbinNew leaves bins in use by an interrupted write
 alone

---
 heclib/heclib_c/src/Internal/zbinNew.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/heclib/heclib_c/src/Internal/zbinNew.c b/heclib/heclib_c/src/Internal/zbinNew.c
index 3851e8e..2bb2004 100644
--- a/heclib/heclib_c/src/Internal/zbinNew.c
+++ b/heclib/heclib_c/src/Internal/zbinNew.c
@@ -67,6 +67,20 @@ int zbinNew(long long *ifltab)
 	// Record that we have created a new bin
 	fileHeader[zdssFileKeys.ktotalBins]++;
 
+	//  A bin that is already in use was taken by a write that was interrupted before
+	//  it could update the file header.  Leave that one alone and use the next.
+	while (fileHeader[zdssFileKeys.kbinsRemainInBlock] > 0) {
+		status = zget(ifltab, fileHeader[zdssFileKeys.kaddNextEmptyBin], (int *)pathnameBin, 1, 2);
+		if (zisError(status)) {
+			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zbinNew_ID);
+		}
+		if (pathnameBin[zdssBinKeys.kbinHash] == 0) {
+			break;
+		}
+		fileHeader[zdssFileKeys.kbinsRemainInBlock]--;
+		fileHeader[zdssFileKeys.kaddNextEmptyBin] += fileHeader[zdssFileKeys.kbinSize];
+	}
+
 	newBinAddress = 0;
 	isize = (int)fileHeader[zdssFileKeys.kbinSize];
 	//  Is there a pathname bin for this table hash?
-- 
2.43.0


From c2392abc0ec276521b7dac8e921df7cfe1448068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:27 +0000
Subject: [PATCH 52/75] fix: the catalogue goes on after an empty pathname bin

---
 heclib/heclib_c/src/Internal/zcatalogInternal.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zcatalogInternal.c b/heclib/heclib_c/src/Internal/zcatalogInternal.c
index 13604b7..41f17e9 100644
--- a/heclib/heclib_c/src/Internal/zcatalogInternal.c
+++ b/heclib/heclib_c/src/Internal/zcatalogInternal.c
@@ -272,10 +272,7 @@ int zcatalogInternal (long long *ifltab, const char *pathWithWild, zStructCatalo
 			}
 
 			icount = 0;
-			if (pathnameBin[icount+zdssBinKeys.kbinHash] == 0) {
-				//  No more, didn't find it in this block, continue on
-					break;
-			}
+			//  An empty bin may be followed by others (when a write that took it failed)
 			while (1) {
 				if (pathnameBin[icount+zdssBinKeys.kbinHash] == 0) {
 					//  No more, didn't find it in this block, continue on
-- 
2.43.0


From 5a9ec7fc3a9f595bb225b973ac54fa55642ae32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:27 +0000
Subject: [PATCH 53/75] fix: zlockActive reports that the file header could not
 be written

---
 heclib/heclib_c/src/Internal/zlockActive.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zlockActive.c b/heclib/heclib_c/src/Internal/zlockActive.c
index 91ab8e6..30e1efc 100644
--- a/heclib/heclib_c/src/Internal/zlockActive.c
+++ b/heclib/heclib_c/src/Internal/zlockActive.c
@@ -140,6 +140,7 @@ int zlockingOld(long long *ifltab, int level, int lock, int flush);
 	int j;
 	int count;
 	int status;
+	int permStatus = STATUS_OKAY;
 	int numberAttempts;
 #ifdef _MSC_VER
 	DWORD sleepTime;
@@ -401,7 +402,7 @@ int zlockingOld(long long *ifltab, int level, int lock, int flush);
 			if (ifltab[zdssKeys.kmultiUserAccess] == RELEASE_ACCESS) {
 				//  Release exclusive access
 				if (flush && ifltab[zdssKeys.kwritingNow]) {
-					zpermWrite(ifltab);
+					permStatus = zpermWrite(ifltab);
 					zflushToDisk(ifltab, 1);
 					ifltab[zdssKeys.kwritingNow] = 0;
 				}
@@ -416,7 +417,7 @@ int zlockingOld(long long *ifltab, int level, int lock, int flush);
 			//  If we are in an exclusive write lock mode, don't unlock file
 			if (ifltab[zdssKeys.klocked] == 1)  {
 				if (flush && ifltab[zdssKeys.kwritingNow]) {
-					zpermWrite(ifltab);
+					permStatus = zpermWrite(ifltab);
 					ifltab[zdssKeys.kwritingNow] = 0;
 				}
 				if (ifltab[zdssKeys.kmultiUserAccess] != EXCLUSIVE_ACCESS) {
@@ -460,7 +461,7 @@ int zlockingOld(long long *ifltab, int level, int lock, int flush);
 		}
 		else {
 			if (flush && ifltab[zdssKeys.kwritingNow]) {
-				zpermWrite(ifltab);
+				permStatus = zpermWrite(ifltab);
 				ifltab[zdssKeys.kwritingNow] = 0;
 			}
 			ifltab[zdssKeys.klocked] = 0;
@@ -470,6 +471,11 @@ int zlockingOld(long long *ifltab, int level, int lock, int flush);
 
 
 
+	//  The file header could not be written; the change is not complete
+	if ((status == STATUS_OKAY) && zisError(permStatus)) {
+		status = permStatus;
+	}
+
 	if (zmessageLevel(ifltab, MESS_METHOD_LOCKING_ID, MESS_LEVEL_INTERNAL_DIAG_1)) {
 		_snprintf_s(messageString, sizeof(messageString), _TRUNCATE, " %d;", handle);
 		zmessageDebug(ifltab, DSS_FUNCTION_zlocking_ID, "Exit;  Handle ", messageString);
-- 
2.43.0


From b37abddf03ff7be24b39c251c2714ad5948244c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:27 +0000
Subject: [PATCH 54/75] fix: a failed write keeps the file header in step with
 the space it had taken

---
 heclib/heclib_c/src/Internal/zerrorProcessing.c | 7 +++++++
 heclib/heclib_c/src/Internal/zput.c             | 2 ++
 2 files changed, 9 insertions(+)

diff --git a/heclib/heclib_c/src/Internal/zerrorProcessing.c b/heclib/heclib_c/src/Internal/zerrorProcessing.c
index ec6ba35..fdc7c26 100644
--- a/heclib/heclib_c/src/Internal/zerrorProcessing.c
+++ b/heclib/heclib_c/src/Internal/zerrorProcessing.c
@@ -407,6 +407,13 @@ int zerrorProcessing(long long *ifltab, int functionID, int errorNumber, int sta
 			}
 
 			if ((ifltab[zdssKeys.kerrorCondition]> 1) && (ifltab[zdssKeys.kwritingNow] != 0)) {
+				if (severity == zdssErrorSeverity.WRITE_ERROR) {
+					//  Keep the header in step with the space that this write had taken,
+					//  and let the next lock read the header again
+					ifltab[zdssKeys.kwritingNow] = 0;
+					zpermWrite(ifltab);
+					ifltab[zdssKeys.kwritingNow] = 0;
+				}
 				//  If the file is locked, unlock it - but don't save buffers in error condition
 				zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
 			}
diff --git a/heclib/heclib_c/src/Internal/zput.c b/heclib/heclib_c/src/Internal/zput.c
index 46cb57a..48e5d96 100644
--- a/heclib/heclib_c/src/Internal/zput.c
+++ b/heclib/heclib_c/src/Internal/zput.c
@@ -121,6 +121,8 @@ int zput(long long *ifltab, long long iaddress, int *iarray, int numberWords, in
 	}
 
 	if (status != 0) {
+		//  Part of it may have been written
+		ifltab[zdssKeys.kwritingNow] = 1;
 		return zerrorProcessing(ifltab, DSS_FUNCTION_zwriteDisk_ID, zdssErrorCodes.WRITE_ERROR,
 								status, iaddress, zdssErrorSeverity.WRITE_ERROR, "", "");
 	}
-- 
2.43.0


From 8466a88ee51a53643a475fd8a05b8b368cd34039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:06 +0000
Subject: [PATCH 55/75] fix: profiles of two depths stored as floats and read
 as doubles (or the reverse) are converted

---
 heclib/heclib_c/src/Internal/ztsDisaggregate.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/ztsDisaggregate.c b/heclib/heclib_c/src/Internal/ztsDisaggregate.c
index 07001e9..5a912e6 100644
--- a/heclib/heclib_c/src/Internal/ztsDisaggregate.c
+++ b/heclib/heclib_c/src/Internal/ztsDisaggregate.c
@@ -450,7 +450,7 @@ int ztsDisaggregate(long long *ifltab, int numberToRead, int numberStored,
 						//  No, just copy it	
 						//  Now get the int *4 length to copy
 						assert(valuesPosition < valuesArraySize);
-						if (valuesSizeRequested == valuesSizeRead) {
+						if (valuesSizeRequested == valuesElementSize) {
 							//  Straight copy
 							startElement = startArray * valuesSizeRead;
 							endElement = endArray * valuesSizeRead;
@@ -486,7 +486,7 @@ int ztsDisaggregate(long long *ifltab, int numberToRead, int numberStored,
 					}
 					else if (valuesCompressionFlag == 2) {
 						//  Same value for all data points (e..g., 0.0, 0.0, 0.0) (think precip)
-						if (valuesSizeRequested == valuesSizeRead) {
+						if (valuesSizeRequested == valuesElementSize) {
 							//  Straight copy
 							for (i = startArray; i < endArray; i++) {
 								for (j = 0; j < valuesSizeRead; j++) {
@@ -1046,7 +1046,7 @@ int ztsDisaggregateDep(long long *ifltab, int numberToRead, int numberStored,
 					if (valuesCompressionFlag == 0) {
 						//  No, just copy it
 						//  Now get the int *4 length to copy
-						if (valuesSizeRequested == valuesSizeRead) {
+						if (valuesSizeRequested == valuesElementSize) {
 							//  Straight copy
 							startElement = startArray * valuesSizeRead;
 							endElement = endArray * valuesSizeRead;
@@ -1082,7 +1082,7 @@ int ztsDisaggregateDep(long long *ifltab, int numberToRead, int numberStored,
 					}
 					else if (valuesCompressionFlag == 2) {
 						//  Same value for all data points (e..g., 0.0)
-						if (valuesSizeRequested == valuesSizeRead) {
+						if (valuesSizeRequested == valuesElementSize) {
 							//  Straight copy
 							for (i = startArray; i<endArray; i++) {
 								for (j = 0; j<valuesSizeRead; j++) {
-- 
2.43.0


From 2a6fb969f7f327968f55e1283ec98ffb8fe3e85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:06 +0000
Subject: [PATCH 56/75] fix: trimming a retrieved series without a valid value
 does not read before its values

---
 heclib/heclib_c/src/Internal/ztsTrim.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Internal/ztsTrim.c b/heclib/heclib_c/src/Internal/ztsTrim.c
index 762c954..c6d7f3f 100644
--- a/heclib/heclib_c/src/Internal/ztsTrim.c
+++ b/heclib/heclib_c/src/Internal/ztsTrim.c
@@ -239,7 +239,7 @@ int ztsTrim(long long *ifltab, zStructTimeSeries *tss)
 			return STATUS_NOT_OKAY;
 		}
 
-		if ((firstValid > 0) || (lastValid != (numberValues -1))) {
+		if ((firstValid > 0) || ((firstValid == 0) && (lastValid != (numberValues -1)))) {
 			//  Need to trim data sets
 			numberValues = lastValid - firstValid + 1;
 			numberToMalloc = numberValues * tss->profileDepthsNumber;
-- 
2.43.0


From 3dcfe28a4572a062190a78e1a0bbc9b0d2d8f046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:06 +0000
Subject: [PATCH 57/75] fix: storage flags 1 and 4 look at every depth of a
 profile for a missing value

---
 .../heclib_c/src/Internal/ztsRegStoreBlock.c  | 21 +++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c b/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c
index 69640c9..ee4344b 100644
--- a/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c
+++ b/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c
@@ -9,6 +9,19 @@
 #include "heclib.h"
 #include "zerrorCodes.h"
 
+//  A value is missing when it, or for a profile the value at every depth, is missing
+static int isMissingValue(int *value, int valueSize, int valueElementSize)
+{
+	int i;
+
+	for (i=0; i<valueSize; i+=valueElementSize) {
+		if (!zisMissing(&value[i], valueElementSize)) {
+			return 0;
+		}
+	}
+	return 1;
+}
+
 /**
 *  Function:	ztsRegStoreBlock
 *
@@ -528,7 +541,7 @@ int ztsRegStoreBlock(long long *ifltab, zStructTimeSeries *tss, const char *path
 					ipos = blockStartPosition * valueSize;
 					assert ((ipos + (numberToStore * valueSize)) <= valuesReadLength);
 					for (i=0; i<numberToStore; i++) {					
-						if (zisMissing(&valuesRead[ipos], valueSize)) {
+						if (isMissingValue(&valuesRead[ipos], valueSize, valueElementSize)) {
 							boolReplace = 1;
 							break;
 						}												
@@ -539,7 +552,7 @@ int ztsRegStoreBlock(long long *ifltab, zStructTimeSeries *tss, const char *path
 					//  storageFlag = 4  Do not allow a missing input data to replace a valid data
 					jpos = 0;
 					for (i=0; i<numberToStore; i++) {					
-						if (!zisMissing(&values[jpos], valueSize)) { 
+						if (!isMissingValue(&values[jpos], valueSize, valueElementSize)) { 
 							boolReplace = 1;
 							break;
 						}	
@@ -699,12 +712,12 @@ int ztsRegStoreBlock(long long *ifltab, zStructTimeSeries *tss, const char *path
 				if ((valueSize > 0) && (valuesRead))  {
 					assert ((iposValues + ((numberToStore - i) * valueSize)) <= valuesReadLength);
 					if (storageFlag == 1) {
-						if (zisMissing(&valuesRead[iposValues], valueSize)) {
+						if (isMissingValue(&valuesRead[iposValues], valueSize, valueElementSize)) {
 							boolReplace = 1;
 						}						
 					}
 					else if (storageFlag == 4) {
-						if (!zisMissing(&values[jposValues], valueSize)) {
+						if (!isMissingValue(&values[jposValues], valueSize, valueElementSize)) {
 							boolReplace = 1;
 						}
 					}
-- 
2.43.0


From 75f7a278dad51e77d609b200b8a1a3a767d3e451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:06 +0000
Subject: [PATCH 58/75] fix: the depth of a profile of one float depth is
 returned

---
 .../heclib_c/src/Internal/ztsIrregReadBlock.c |  4 +++
 .../heclib_c/src/Internal/ztsRegReadBlock.c   | 31 +++++--------------
 2 files changed, 11 insertions(+), 24 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/ztsIrregReadBlock.c b/heclib/heclib_c/src/Internal/ztsIrregReadBlock.c
index d2e05e4..1d9002a 100644
--- a/heclib/heclib_c/src/Internal/ztsIrregReadBlock.c
+++ b/heclib/heclib_c/src/Internal/ztsIrregReadBlock.c
@@ -336,6 +336,10 @@ int ztsIrregReadBlock(long long *ifltab, const char *pathname, long long *info,
 		*internalHeaderNumber = ztransfer->internalHeaderNumber;
 		*inoteElementSizeRead = internalHeader[INT_HEAD_inotesElementSize];
 		*profileDepthsNumberRequested = ztransfer->values2Number;
+		if ((profileDepthsArraySize == 1) && profileDepths && (ztransfer->values2Number > 0)) {
+			//  One float depth:  a size of one lets zread allocate the space, so copy it back
+			profileDepths[0] = ztransfer->values2[0];
+		}
 		*userHeaderNumber = ztransfer->userHeaderNumber;
 		if (*userHeaderNumber > 0) {
 			if (userHeaderArraySize == 1) {
diff --git a/heclib/heclib_c/src/Internal/ztsRegReadBlock.c b/heclib/heclib_c/src/Internal/ztsRegReadBlock.c
index cc3824c..daff24d 100644
--- a/heclib/heclib_c/src/Internal/ztsRegReadBlock.c
+++ b/heclib/heclib_c/src/Internal/ztsRegReadBlock.c
@@ -255,35 +255,18 @@ int ztsRegReadBlock(long long *ifltab, const char *pathname, int boolExists,
 		*qualityElementSize = internalHeader[INT_HEAD_qualityElementSize];
 		*inoteElementSize = internalHeader[INT_HEAD_inotesElementSize];
 		if ((ztransfer->values2Number > 0) && (profileDepthsArraySize > 0)) {
-			if (profileDepthsArraySize == 1) {
-				//  space allocated in zread
-				*profileDepthsNumberRead = ztransfer->values2Number;
-				profileDepths = ztransfer->values2;
-				ztransfer->allocated[zSTRUCT_TRANS_values2] = 0;
-				ztransfer->values2 = 0;
-			}
-			else {
-				if (profileDepthsArraySize > ztransfer->values2Number) profileDepthsArraySize = ztransfer->values2Number;
-				*profileDepthsNumberRead = profileDepthsArraySize;
-				convertIntArray(ztransfer->values2, profileDepths, profileDepthsArraySize, 1, 1);
-			}
+			//  (one float depth is an array size of one)
+			if (profileDepthsArraySize > ztransfer->values2Number) profileDepthsArraySize = ztransfer->values2Number;
+			*profileDepthsNumberRead = profileDepthsArraySize;
+			convertIntArray(ztransfer->values2, profileDepths, profileDepthsArraySize, 1, 1);
 		}
 		else {
 			*profileDepthsNumberRead = 0;
 		}		
 		if ((ztransfer->userHeaderNumber > 0) && (userHeaderArraySize > 0) && ztransfer->userHeader && userHeader) {
-			if (profileDepthsArraySize == 1) {
-				//  space allocated in zread
-				*userHeaderNumber = ztransfer->userHeaderNumber;
-				userHeader = ztransfer->userHeader;
-				ztransfer->allocated[zSTRUCT_userHeader] = 0;
-				ztransfer->userHeader = 0;
-			}
-			else {
-				if (userHeaderArraySize > ztransfer->userHeaderNumber) userHeaderArraySize = ztransfer->userHeaderNumber;
-				*userHeaderNumber = userHeaderArraySize;
-				convertIntArray(ztransfer->userHeader, userHeader, userHeaderArraySize, 1, 1);
-			}
+			if (userHeaderArraySize > ztransfer->userHeaderNumber) userHeaderArraySize = ztransfer->userHeaderNumber;
+			*userHeaderNumber = userHeaderArraySize;
+			convertIntArray(ztransfer->userHeader, userHeader, userHeaderArraySize, 1, 1);
 		}
 		else {
 			*userHeaderNumber = 0;
-- 
2.43.0


From 79c1869ce4e53e4984aef4138d740996bdbcff5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:06 +0000
Subject: [PATCH 59/75] fix: hec_dss_tsRetrieveInfo returns the units of a
 profile

---
 heclib/hecdss/hecdss.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/heclib/hecdss/hecdss.c b/heclib/hecdss/hecdss.c
index ef5387b..c51b3a0 100644
--- a/heclib/hecdss/hecdss.c
+++ b/heclib/hecdss/hecdss.c
@@ -295,6 +295,9 @@ HECDSS_API int hec_dss_tsRetrieveInfo(dss_file* pdss, const char* pathname,char*
       if (tss->units != NULL) {
         stringCopy(units, unitsLength, tss->units, strlen(tss->units));
       }
+      else if (tss->unitsProfileValues != NULL) {
+        stringCopy(units, unitsLength, tss->unitsProfileValues, strlen(tss->unitsProfileValues));
+      }
       if (tss->type != NULL) {
         stringCopy(type, typeLength, tss->type, strlen(tss->type));
       }
-- 
2.43.0


From 223d6cc9e0116c49f720183725b9b95f782ee2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:06 +0000
Subject: [PATCH 60/75] fix: hec_dss_tsRetrieve refuses a profile instead of
 reading a null pointer

---
 heclib/hecdss/hecdss.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/heclib/hecdss/hecdss.c b/heclib/hecdss/hecdss.c
index c51b3a0..3ab7d67 100644
--- a/heclib/hecdss/hecdss.c
+++ b/heclib/hecdss/hecdss.c
@@ -342,6 +342,10 @@ HECDSS_API int hec_dss_tsRetrieve(dss_file* dss, const char *pathname,
     
     
     int status = ztsRetrieve(dss->ifltab, tss, NO_TRIM_INCL_TIME_ARR, RETRIEVE_DOUBLES, RETRIEVE_QUAL_AND_NOTES);
+    if (status == 0 && tss->profileDepthsNumber > 0) {
+        hec_dss_log_message("Profiles cannot be retrieved with hec_dss_tsRetrieve.");
+        status = -1;
+    }
     if (status == 0) {
         *julianBaseDate = tss->julianBaseDate;
         *timeGranularitySeconds = tss->timeGranularitySeconds;
-- 
2.43.0


From d0f8d66b671f938ad53ab0801db30dc2fdd6327c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:06 +0000
Subject: [PATCH 61/75] fix: a store of profiles with another number of depths
 is refused, as its error text says

---
 heclib/heclib_c/src/Internal/ztsIrregStoreBlock.c | 6 ++++++
 heclib/heclib_c/src/Internal/ztsRegStoreBlock.c   | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/heclib/heclib_c/src/Internal/ztsIrregStoreBlock.c b/heclib/heclib_c/src/Internal/ztsIrregStoreBlock.c
index a0f4577..a0883fa 100644
--- a/heclib/heclib_c/src/Internal/ztsIrregStoreBlock.c
+++ b/heclib/heclib_c/src/Internal/ztsIrregStoreBlock.c
@@ -377,6 +377,12 @@ int ztsIrregStoreBlock(long long *ifltab, zStructTimeSeries *tss, const char *pa
 			if (zisError(status)) {
 				return zerrorUpdate(ifltab, status, DSS_FUNCTION_zbinUpdate_ID);
 			}
+			if (internalHeaderRead[INT_HEAD_profileDepthsNumber] != profileDepthsNumber) {
+				return zerrorProcessing(ifltab, DSS_FUNCTION_ztsIrregStoreBlock_ID,
+										zdssErrorCodes.DIFFERENT_PROFILE_NUMBER, profileDepthsNumber,
+										(long long)internalHeaderRead[INT_HEAD_profileDepthsNumber],
+										zdssErrorSeverity.INVALID_ARGUMENT, pathname, "");
+			}
 
 			logicalNumberValues = (int)info[zdssInfoKeys.kinfoLogicalNumber];
 			if (logicalNumberValues < 1) {
diff --git a/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c b/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c
index ee4344b..85fe9bb 100644
--- a/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c
+++ b/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c
@@ -382,6 +382,12 @@ int ztsRegStoreBlock(long long *ifltab, zStructTimeSeries *tss, const char *path
 			if (bigEndian()) {
 				zswitchInts(internalHeaderRead, INT_HEAD_cnotesLength + 1);
 			}
+			if (internalHeaderRead[INT_HEAD_profileDepthsNumber] != profileDepthsNumber) {
+				return zerrorProcessing(ifltab, DSS_FUNCTION_ztsRegStoreBlock_ID,
+										zdssErrorCodes.DIFFERENT_PROFILE_NUMBER, profileDepthsNumber,
+										(long long)internalHeaderRead[INT_HEAD_profileDepthsNumber],
+										zdssErrorSeverity.INVALID_ARGUMENT, pathname, "");
+			}
 			if (info[zdssInfoKeys.kinfoLogicalNumber] < 1) {
 				//  Very rare (not storing data, but quality or notes)
 				boolReadBlock = 0;
-- 
2.43.0


From b749556ce324d6ad0d9a5762acb358d95906cf56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:06 +0000
Subject: [PATCH 62/75] fix: a retrieve over blocks with different numbers of
 depths is refused

---
 heclib/heclib_c/src/Internal/ztsIrregReadBlock.c | 10 ++++++++++
 heclib/heclib_c/src/Internal/ztsRegReadBlock.c   |  9 +++++++++
 2 files changed, 19 insertions(+)

diff --git a/heclib/heclib_c/src/Internal/ztsIrregReadBlock.c b/heclib/heclib_c/src/Internal/ztsIrregReadBlock.c
index 1d9002a..ff62e11 100644
--- a/heclib/heclib_c/src/Internal/ztsIrregReadBlock.c
+++ b/heclib/heclib_c/src/Internal/ztsIrregReadBlock.c
@@ -333,6 +333,16 @@ int ztsIrregReadBlock(long long *ifltab, const char *pathname, long long *info,
 			}
 		}
 
+		if (internalHeader[INT_HEAD_profileDepthsNumber] != profileDepthsSize) {
+			//  The values are laid out for another number of depths
+			status = zerrorProcessing(ifltab, DSS_FUNCTION_ztsIrregReadBlock_ID,
+				zdssErrorCodes.DIFFERENT_PROFILE_NUMBER, profileDepthsSize,
+				(long long)internalHeader[INT_HEAD_profileDepthsNumber],
+				zdssErrorSeverity.INVALID_ARGUMENT, ztransfer->pathname, "");
+			zstructFree(ztransfer);
+			return status;
+		}
+
 		*internalHeaderNumber = ztransfer->internalHeaderNumber;
 		*inoteElementSizeRead = internalHeader[INT_HEAD_inotesElementSize];
 		*profileDepthsNumberRequested = ztransfer->values2Number;
diff --git a/heclib/heclib_c/src/Internal/ztsRegReadBlock.c b/heclib/heclib_c/src/Internal/ztsRegReadBlock.c
index daff24d..ace8529 100644
--- a/heclib/heclib_c/src/Internal/ztsRegReadBlock.c
+++ b/heclib/heclib_c/src/Internal/ztsRegReadBlock.c
@@ -251,6 +251,15 @@ int ztsRegReadBlock(long long *ifltab, const char *pathname, int boolExists,
 		*internalHeaderNumber = ztransfer->internalHeaderNumber;
 		if (*internalHeaderNumber > internalHeaderArraySize) *internalHeaderNumber = internalHeaderArraySize;
 		convertIntArray(ztransfer->internalHeader, internalHeader, *internalHeaderNumber, 1, 1);
+		if (internalHeader[INT_HEAD_profileDepthsNumber] != profileDepthsNumberRequested) {
+			//  The values are laid out for another number of depths
+			int rval = zerrorProcessing(ifltab, DSS_FUNCTION_ztsRegReadBlock_ID,
+				zdssErrorCodes.DIFFERENT_PROFILE_NUMBER, profileDepthsNumberRequested,
+				(long long)internalHeader[INT_HEAD_profileDepthsNumber],
+				zdssErrorSeverity.INVALID_ARGUMENT, ztransfer->pathname, "");
+			zstructFree(ztransfer);
+			return rval;
+		}
 		*valueElementSizeRead = internalHeader[INT_HEAD_valueElementSize];
 		*qualityElementSize = internalHeader[INT_HEAD_qualityElementSize];
 		*inoteElementSize = internalHeader[INT_HEAD_inotesElementSize];
-- 
2.43.0


From b9332e2d28838753a9c784163f65fdecb431622c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:06 +0000
Subject: [PATCH 63/75] fix: zpathnameSetPart does not read before the start of
 the pathname

---
 heclib/heclib_c/src/Public/zpathnameSetPart.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Public/zpathnameSetPart.c b/heclib/heclib_c/src/Public/zpathnameSetPart.c
index c7d99cd..59da7e5 100644
--- a/heclib/heclib_c/src/Public/zpathnameSetPart.c
+++ b/heclib/heclib_c/src/Public/zpathnameSetPart.c
@@ -103,7 +103,7 @@ int zpathnameSetPart (char *pathname, size_t sizeofPathname, const char *part, i
 		pathname[endPath] = '\0';
 		endPath--;
 		//  Move the end backwards
-		for (i=endPath; i>=end; i--) {
+		for (i=endPath; i>=(end+diff-1); i--) {
 			pathname[i] = pathname[i-diff];
 		}
 		//  Now copy the new part into the old part's position
-- 
2.43.0


From 35caf4c1d268049abaa7a19ab0e12a9543f6c82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:09 +0000
Subject: [PATCH 64/75] fix: missing values are not shifted by a vertical datum
 offset

---
 heclib/heclib_c/src/Public/zpdRetrieve.c | 16 ++++++++--------
 heclib/heclib_c/src/Public/zpdStore.c    |  8 ++++----
 heclib/heclib_c/src/Public/ztsRetrieve.c |  4 ++--
 heclib/heclib_c/src/Public/ztsStore.c    |  4 ++--
 4 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/heclib/heclib_c/src/Public/zpdRetrieve.c b/heclib/heclib_c/src/Public/zpdRetrieve.c
index 0b68272..3949967 100644
--- a/heclib/heclib_c/src/Public/zpdRetrieve.c
+++ b/heclib/heclib_c/src/Public/zpdRetrieve.c
@@ -892,12 +892,12 @@ int zpdRetrieve(long long *ifltab, zStructPairedData *pds, int retrieveSizeFlag)
 							//------------------------------//
 							if (pds->doubleOrdinates) {
 								for (int i = 0; i < pds->numberOrdinates; ++i) {
-									pds->doubleOrdinates[i] += ind_offset;
+									if (!zisMissingDouble(pds->doubleOrdinates[i])) pds->doubleOrdinates[i] += ind_offset;
 								}
 							}
 							else if (pds->floatOrdinates) {
 								for (int i = 0; i < pds->numberOrdinates; ++i) {
-									pds->floatOrdinates[i] += ind_offset;
+									if (!zisMissingFloat(pds->floatOrdinates[i])) pds->floatOrdinates[i] += ind_offset;
 								}
 							}
 						}
@@ -934,12 +934,12 @@ int zpdRetrieve(long long *ifltab, zStructPairedData *pds, int retrieveSizeFlag)
 								if (ind_offset != UNDEFINED_VERTICAL_DATUM_VALUE && ind_offset != 0.) {
 									if (pds->doubleOrdinates) {
 										for (int i = 0; i < pds->numberOrdinates; ++i) {
-											pds->doubleOrdinates[i] -= ind_offset;
+											if (!zisMissingDouble(pds->doubleOrdinates[i])) pds->doubleOrdinates[i] -= ind_offset;
 										}
 									}
 									else if (pds->floatOrdinates) {
 										for (int i = 0; i < pds->numberOrdinates; ++i) {
-											pds->floatOrdinates[i] -= ind_offset;
+											if (!zisMissingFloat(pds->floatOrdinates[i])) pds->floatOrdinates[i] -= ind_offset;
 										}
 									}
 								}
@@ -968,12 +968,12 @@ int zpdRetrieve(long long *ifltab, zStructPairedData *pds, int retrieveSizeFlag)
 									if (ind_offset != UNDEFINED_VERTICAL_DATUM_VALUE && ind_offset != 0.) {
 										if (pds->doubleOrdinates) {
 											for (int i = 0; i < pds->numberOrdinates; ++i) {
-												pds->doubleOrdinates[i] -= ind_offset;
+												if (!zisMissingDouble(pds->doubleOrdinates[i])) pds->doubleOrdinates[i] -= ind_offset;
 											}
 										}
 										else if (pds->floatOrdinates) {
 											for (int i = 0; i < pds->numberOrdinates; ++i) {
-												pds->floatOrdinates[i] -= ind_offset;
+												if (!zisMissingFloat(pds->floatOrdinates[i])) pds->floatOrdinates[i] -= ind_offset;
 											}
 										}
 									}
@@ -994,12 +994,12 @@ int zpdRetrieve(long long *ifltab, zStructPairedData *pds, int retrieveSizeFlag)
 							//------------------------------//
 							if (pds->doubleValues) {
 								for (int i = 0; i < pds->numberOrdinates * pds->numberCurves; ++i) {
-									pds->doubleValues[i] += dep_offset;
+									if (!zisMissingDouble(pds->doubleValues[i])) pds->doubleValues[i] += dep_offset;
 								}
 							}
 							else if (pds->floatValues) {
 								for (int i = 0; i < pds->numberOrdinates * pds->numberCurves; ++i) {
-									pds->floatValues[i] += dep_offset;
+									if (!zisMissingFloat(pds->floatValues[i])) pds->floatValues[i] += dep_offset;
 								}
 							}
 						}
diff --git a/heclib/heclib_c/src/Public/zpdStore.c b/heclib/heclib_c/src/Public/zpdStore.c
index 2b978df..6e2b871 100644
--- a/heclib/heclib_c/src/Public/zpdStore.c
+++ b/heclib/heclib_c/src/Public/zpdStore.c
@@ -425,7 +425,7 @@ int zpdStore(long long *ifltab, zStructPairedData *pds, int storageFlag)
 				if (pds->floatOrdinates) {
 					tmpFloatOrds = (float*)calloc(pds->numberOrdinates, sizeof(float));
 					for (int i = 0; i < pds->numberOrdinates; ++i) {
-						tmpFloatOrds[i] = pds->floatOrdinates[i] - offset_ind;
+						tmpFloatOrds[i] = zisMissingFloat(pds->floatOrdinates[i]) ? pds->floatOrdinates[i] : pds->floatOrdinates[i] - offset_ind;
 					}
 					origFloatOrds = pds->floatOrdinates;
 					pds->floatOrdinates = tmpFloatOrds;
@@ -433,7 +433,7 @@ int zpdStore(long long *ifltab, zStructPairedData *pds, int storageFlag)
 				else if (pds->doubleOrdinates) {
 					tmpDoubleOrds = (double*)calloc(pds->numberOrdinates, sizeof(double));
 					for (int i = 0; i < pds->numberOrdinates; ++i) {
-						tmpDoubleOrds[i] = pds->doubleOrdinates[i] - offset_ind;
+						tmpDoubleOrds[i] = zisMissingDouble(pds->doubleOrdinates[i]) ? pds->doubleOrdinates[i] : pds->doubleOrdinates[i] - offset_ind;
 					}
 					origDoubleOrds = pds->doubleOrdinates;
 					pds->doubleOrdinates = tmpDoubleOrds;
@@ -445,7 +445,7 @@ int zpdStore(long long *ifltab, zStructPairedData *pds, int storageFlag)
 				if (pds->floatValues) {
 					tmpFloatVals = (float*)calloc(pds->numberCurves * pds->numberOrdinates, sizeof(float));
 					for (int i = 0; i < pds->numberCurves * pds->numberOrdinates; ++i) {
-						tmpFloatVals[i] = pds->floatValues[i] - offset_dep;
+						tmpFloatVals[i] = zisMissingFloat(pds->floatValues[i]) ? pds->floatValues[i] : pds->floatValues[i] - offset_dep;
 					}
 					origFloatVals = pds->floatValues;
 					pds->floatValues = tmpFloatVals;
@@ -453,7 +453,7 @@ int zpdStore(long long *ifltab, zStructPairedData *pds, int storageFlag)
 				else if (pds->doubleValues) {
 					tmpDoubleVals = (double*)calloc(pds->numberCurves * pds->numberOrdinates, sizeof(double));
 					for (int i = 0; i < pds->numberCurves * pds->numberOrdinates; ++i) {
-						tmpDoubleVals[i] = pds->doubleValues[i] - offset_dep;
+						tmpDoubleVals[i] = zisMissingDouble(pds->doubleValues[i]) ? pds->doubleValues[i] : pds->doubleValues[i] - offset_dep;
 					}
 					origDoubleVals = pds->doubleValues;
 					pds->doubleValues = tmpDoubleVals;
diff --git a/heclib/heclib_c/src/Public/ztsRetrieve.c b/heclib/heclib_c/src/Public/ztsRetrieve.c
index ade0e6a..11d1843 100644
--- a/heclib/heclib_c/src/Public/ztsRetrieve.c
+++ b/heclib/heclib_c/src/Public/ztsRetrieve.c
@@ -588,12 +588,12 @@ int ztsRetrieve(long long *ifltab, zStructTimeSeries *tss,
 							//------------------------------//
 							for (int i = 0; i < tss->numberValues; ++i) {
 								if (tss->floatValues) {
-									if (tss->floatValues[i] != UNDEFINED_FLOAT) {
+									if (!zisMissingFloat(tss->floatValues[i])) {
 										tss->floatValues[i] += (float)offset;
 									}
 								}
 								else {
-									if (tss->doubleValues[i] != UNDEFINED_DOUBLE) {
+									if (!zisMissingDouble(tss->doubleValues[i])) {
 										tss->doubleValues[i] += offset;
 									}
 								}
diff --git a/heclib/heclib_c/src/Public/ztsStore.c b/heclib/heclib_c/src/Public/ztsStore.c
index 1caa321..9c31417 100644
--- a/heclib/heclib_c/src/Public/ztsStore.c
+++ b/heclib/heclib_c/src/Public/ztsStore.c
@@ -490,7 +490,7 @@ int ztsStore(long long *ifltab, zStructTimeSeries *tss, int storageFlag)
 				if (tss->floatValues) {
 					tmpFloatVals = (float*)calloc(tss->numberValues, sizeof(float));
 					for (int i = 0; i < tss->numberValues; ++i) {
-						tmpFloatVals[i] = tss->floatValues[i] - (float)offset;
+						tmpFloatVals[i] = zisMissingFloat(tss->floatValues[i]) ? tss->floatValues[i] : tss->floatValues[i] - (float)offset;
 					}
 					origFloatVals = tss->floatValues;
 					tss->floatValues = tmpFloatVals;
@@ -498,7 +498,7 @@ int ztsStore(long long *ifltab, zStructTimeSeries *tss, int storageFlag)
 				else if (tss->doubleValues) {
 					tmpDoubleVals = (double*)calloc(tss->numberValues, sizeof(double));
 					for (int i = 0; i < tss->numberValues; ++i) {
-						tmpDoubleVals[i] = tss->doubleValues[i] - offset;
+						tmpDoubleVals[i] = zisMissingDouble(tss->doubleValues[i]) ? tss->doubleValues[i] : tss->doubleValues[i] - offset;
 					}
 					origDoubleVals = tss->doubleValues;
 					tss->doubleValues = tmpDoubleVals;
-- 
2.43.0


From 4574ad5ad9b6fbc4f3bf541e2f9298a46f242b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:09 +0000
Subject: [PATCH 65/75] fix: retrieving part of a paired data record in another
 datum converts only the part read

---
 heclib/heclib_c/src/Public/zpdRetrieve.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/heclib/heclib_c/src/Public/zpdRetrieve.c b/heclib/heclib_c/src/Public/zpdRetrieve.c
index 3949967..c0541e2 100644
--- a/heclib/heclib_c/src/Public/zpdRetrieve.c
+++ b/heclib/heclib_c/src/Public/zpdRetrieve.c
@@ -891,12 +891,12 @@ int zpdRetrieve(long long *ifltab, zStructPairedData *pds, int retrieveSizeFlag)
 							// add the offset to the values //
 							//------------------------------//
 							if (pds->doubleOrdinates) {
-								for (int i = 0; i < pds->numberOrdinates; ++i) {
+								for (int i = 0; i < pds->numberOrdinatesInStruct; ++i) {
 									if (!zisMissingDouble(pds->doubleOrdinates[i])) pds->doubleOrdinates[i] += ind_offset;
 								}
 							}
 							else if (pds->floatOrdinates) {
-								for (int i = 0; i < pds->numberOrdinates; ++i) {
+								for (int i = 0; i < pds->numberOrdinatesInStruct; ++i) {
 									if (!zisMissingFloat(pds->floatOrdinates[i])) pds->floatOrdinates[i] += ind_offset;
 								}
 							}
@@ -933,12 +933,12 @@ int zpdRetrieve(long long *ifltab, zStructPairedData *pds, int retrieveSizeFlag)
 									cvertical_datum);
 								if (ind_offset != UNDEFINED_VERTICAL_DATUM_VALUE && ind_offset != 0.) {
 									if (pds->doubleOrdinates) {
-										for (int i = 0; i < pds->numberOrdinates; ++i) {
+										for (int i = 0; i < pds->numberOrdinatesInStruct; ++i) {
 											if (!zisMissingDouble(pds->doubleOrdinates[i])) pds->doubleOrdinates[i] -= ind_offset;
 										}
 									}
 									else if (pds->floatOrdinates) {
-										for (int i = 0; i < pds->numberOrdinates; ++i) {
+										for (int i = 0; i < pds->numberOrdinatesInStruct; ++i) {
 											if (!zisMissingFloat(pds->floatOrdinates[i])) pds->floatOrdinates[i] -= ind_offset;
 										}
 									}
@@ -967,12 +967,12 @@ int zpdRetrieve(long long *ifltab, zStructPairedData *pds, int retrieveSizeFlag)
 										cvertical_datum);
 									if (ind_offset != UNDEFINED_VERTICAL_DATUM_VALUE && ind_offset != 0.) {
 										if (pds->doubleOrdinates) {
-											for (int i = 0; i < pds->numberOrdinates; ++i) {
+											for (int i = 0; i < pds->numberOrdinatesInStruct; ++i) {
 												if (!zisMissingDouble(pds->doubleOrdinates[i])) pds->doubleOrdinates[i] -= ind_offset;
 											}
 										}
 										else if (pds->floatOrdinates) {
-											for (int i = 0; i < pds->numberOrdinates; ++i) {
+											for (int i = 0; i < pds->numberOrdinatesInStruct; ++i) {
 												if (!zisMissingFloat(pds->floatOrdinates[i])) pds->floatOrdinates[i] -= ind_offset;
 											}
 										}
@@ -993,12 +993,12 @@ int zpdRetrieve(long long *ifltab, zStructPairedData *pds, int retrieveSizeFlag)
 							// add the offset to the values //
 							//------------------------------//
 							if (pds->doubleValues) {
-								for (int i = 0; i < pds->numberOrdinates * pds->numberCurves; ++i) {
+								for (int i = 0; i < pds->numberOrdinatesInStruct * pds->numberCurvesInStruct; ++i) {
 									if (!zisMissingDouble(pds->doubleValues[i])) pds->doubleValues[i] += dep_offset;
 								}
 							}
 							else if (pds->floatValues) {
-								for (int i = 0; i < pds->numberOrdinates * pds->numberCurves; ++i) {
+								for (int i = 0; i < pds->numberOrdinatesInStruct * pds->numberCurvesInStruct; ++i) {
 									if (!zisMissingFloat(pds->floatValues[i])) pds->floatValues[i] += dep_offset;
 								}
 							}
-- 
2.43.0


From dee0700ac656302c2bb9bb0ee74a62667b6f59de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:09 +0000
Subject: [PATCH 66/75] fix: a refused datum conversion does not leave a freed
 user header in the struct

---
 heclib/heclib_c/src/Public/zpdRetrieve.c | 2 +-
 heclib/heclib_c/src/Public/ztsRetrieve.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/heclib/heclib_c/src/Public/zpdRetrieve.c b/heclib/heclib_c/src/Public/zpdRetrieve.c
index c0541e2..0c953c3 100644
--- a/heclib/heclib_c/src/Public/zpdRetrieve.c
+++ b/heclib/heclib_c/src/Public/zpdRetrieve.c
@@ -807,7 +807,6 @@ int zpdRetrieve(long long *ifltab, zStructPairedData *pds, int retrieveSizeFlag)
 								"%s:%s;", 
 								VERTICAL_DATUM_INFO_USER_HEADER_PARAM,
 								vdiStr);
-							free(pds->userHeader);
 						}
 					}
 					else {
@@ -1018,6 +1017,7 @@ int zpdRetrieve(long long *ifltab, zStructPairedData *pds, int retrieveSizeFlag)
 						"%s:%s;", 
 						VERTICAL_DATUM_USER_HEADER_PARAM,
 						cvertical_datum);
+					if (pds->userHeader && pds->allocated[zSTRUCT_userHeader]) free(pds->userHeader);
 					pds->userHeader = stringToUserHeader(headerString, &pds->userHeaderNumber);
 					pds->allocated[zSTRUCT_userHeader] = TRUE;
 					free(headerString);
diff --git a/heclib/heclib_c/src/Public/ztsRetrieve.c b/heclib/heclib_c/src/Public/ztsRetrieve.c
index 11d1843..2f21242 100644
--- a/heclib/heclib_c/src/Public/ztsRetrieve.c
+++ b/heclib/heclib_c/src/Public/ztsRetrieve.c
@@ -490,7 +490,6 @@ int ztsRetrieve(long long *ifltab, zStructTimeSeries *tss,
 								"%s:%s;",
 								VERTICAL_DATUM_INFO_USER_HEADER_PARAM,
 								vdiStr);
-							free(tss->userHeader);
 						}
 					}
 					else {
@@ -519,6 +518,7 @@ int ztsRetrieve(long long *ifltab, zStructTimeSeries *tss,
 						"%s:%s;",
 						VERTICAL_DATUM_USER_HEADER_PARAM,
 						cvertical_datum);
+					if (tss->userHeader && tss->allocated[zSTRUCT_userHeader]) free(tss->userHeader);
 					tss->userHeader = stringToUserHeader(headerString, &tss->userHeaderNumber);
 					tss->allocated[zSTRUCT_userHeader] = TRUE;
 					free(headerString);
-- 
2.43.0


From 9223f39546f79e93ac9be9080f0e40de5d908e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:31 +0000
Subject: [PATCH 67/75] fix: the data CRC covers the third data section with
 its own length

---
 heclib/heclib_c/src/Public/zgetDataCRC.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Public/zgetDataCRC.c b/heclib/heclib_c/src/Public/zgetDataCRC.c
index d07a804..cf6b3a5 100644
--- a/heclib/heclib_c/src/Public/zgetDataCRC.c
+++ b/heclib/heclib_c/src/Public/zgetDataCRC.c
@@ -103,7 +103,7 @@ unsigned int zgetDataCRC(long long *ifltab, const char *pathname, unsigned int c
 		}
 	}
 	if (ztransfer->values3) {
-		len = ztransfer->values1Number * 4;
+		len = ztransfer->values3Number * 4;
 		if (endian) {
 			crcValue = crc32_block_endian1(crcValue, ztransfer->values3, len, crc_table);
 		}
-- 
2.43.0


From c56a8580d3e51cfa87fa6f2810a02651a9a069f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:31 +0000
Subject: [PATCH 68/75] fix: comparing with check sums reports new records and
 tells hash twins apart

---
 heclib/heclib_c/src/Public/zwhatChangedCompare.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/heclib/heclib_c/src/Public/zwhatChangedCompare.c b/heclib/heclib_c/src/Public/zwhatChangedCompare.c
index 10923b8..5eecb7f 100644
--- a/heclib/heclib_c/src/Public/zwhatChangedCompare.c
+++ b/heclib/heclib_c/src/Public/zwhatChangedCompare.c
@@ -1,4 +1,5 @@
 #include <stdlib.h>
+#include <string.h>
 
 #include "zdssKeys.h"
 #include "hecdss7.h"
@@ -57,6 +58,8 @@ int zwhatChangedCompare(long long *ifltab, zStructCatalog *catStructBefore, zStr
 	int count;
 	int i;
 	int j;
+	int boolFound;
+	int length;
 	int *index;
 	zStructCatalog *catStruct;
 
@@ -120,15 +123,26 @@ int zwhatChangedCompare(long long *ifltab, zStructCatalog *catStructBefore, zStr
 
 	count = 0;
 	for (i=0; i<catStruct->numberPathnames; i++) {
+		boolFound = 0;
 		for (j=0; j<catStructBefore->numberPathnames; j++) {
 			if (catStruct->pathnameHash[i] == catStructBefore->pathnameHash[j]) {
+				//  Different pathnames can have the same hash
+				length = (int)strlen(catStruct->pathnameList[i]);
+				if (length != (int)strlen(catStructBefore->pathnameList[j])) continue;
+				if (!zstringCompare(catStruct->pathnameList[i], catStructBefore->pathnameList[j], (size_t)length)) continue;
 				//  We have an updated record.  Has the data changed?
+				boolFound = 1;
 				if (catStruct->crcValues[i] != catStructBefore->crcValues[j]) {
 					//  Found One.  The CRC value has changed, so the data set has too.
 					index[count++] = i;
 				}
+				break;
 			}
 		}
+		if (!boolFound) {
+			//  A new record
+			index[count++] = i;
+		}
 	}
 
 	if (count == 0) {
@@ -193,6 +207,7 @@ int zwhatChangedCompare(long long *ifltab, zStructCatalog *catStructBefore, zStr
 	for (i=0; i<count; i++) {
 		j = index[i];
 		catStructChanged->pathnameList[i] = mallocAndCopy(catStruct->pathnameList[j]);
+		catStructChanged->recordType[i] = catStruct->recordType[j];
 		catStructChanged->pathnameHash[i] = catStruct->pathnameHash[j];
 		catStructChanged->lastWriteTimeRecord[i] = catStruct->lastWriteTimeRecord[j];
 		catStructChanged->crcValues[i] = catStruct->crcValues[j];
-- 
2.43.0


From d3826254d059cbf643ec985df649e168e67d6069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:31 +0000
Subject: [PATCH 69/75] fix: a sorted catalogue has the record types, hashes
 and write times and honours the search by write time

---
 .../heclib_c/src/Internal/zcatInternalSort.c  | 54 ++++++++++++++++++-
 1 file changed, 53 insertions(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Internal/zcatInternalSort.c b/heclib/heclib_c/src/Internal/zcatInternalSort.c
index 7993ba4..cac1426 100644
--- a/heclib/heclib_c/src/Internal/zcatInternalSort.c
+++ b/heclib/heclib_c/src/Internal/zcatInternalSort.c
@@ -78,6 +78,40 @@
 **/
 
 
+//  The arrays that a catalog always returns (and the CRC values, if those were asked for)
+static int zcatSortAllocate(zStructCatalog *sortedStruct, zStructCatalog *nonSortedStruct)
+{
+	size_t number;
+
+	number = (size_t)sortedStruct->listSize;
+	if (nonSortedStruct->recordType) {
+		sortedStruct->recordType = (int *)calloc(number + 1, WORD_SIZE);
+		if (!sortedStruct->recordType) return -1;
+	}
+	if (nonSortedStruct->pathnameHash) {
+		sortedStruct->pathnameHash = (long long *)calloc(number + 1, LONG_SIZE);
+		if (!sortedStruct->pathnameHash) return -1;
+	}
+	if (nonSortedStruct->lastWriteTimeRecord) {
+		sortedStruct->lastWriteTimeRecord = (long long *)calloc(number + 1, LONG_SIZE);
+		if (!sortedStruct->lastWriteTimeRecord) return -1;
+	}
+	if (nonSortedStruct->crcValues) {
+		sortedStruct->crcValues = (unsigned int *)calloc(number + 1, sizeof(unsigned int));
+		if (!sortedStruct->crcValues) return -1;
+	}
+	return 0;
+}
+
+static void zcatSortCopy(zStructCatalog *sortedStruct, int to, zStructCatalog *nonSortedStruct, int from)
+{
+	if (sortedStruct->recordType) sortedStruct->recordType[to] = nonSortedStruct->recordType[from];
+	if (sortedStruct->pathnameHash) sortedStruct->pathnameHash[to] = nonSortedStruct->pathnameHash[from];
+	if (sortedStruct->lastWriteTimeRecord) sortedStruct->lastWriteTimeRecord[to] = nonSortedStruct->lastWriteTimeRecord[from];
+	if (sortedStruct->crcValues) sortedStruct->crcValues[to] = nonSortedStruct->crcValues[from];
+}
+
+
 int zcatInternalSort(long long *ifltab, const char *pathWithWild, zStructCatalog *sortedStruct,
 					 int catalogHandle, int fortranUnit, int boolCollection)
 {
@@ -129,7 +163,8 @@ int zcatInternalSort(long long *ifltab, const char *pathWithWild, zStructCatalog
 		if ((pathWithWild && ((int)strlen(pathWithWild) > 1)) || (boolCollection)) {
 			sortListStatus = 0;
 		}
-		else if (sortedStruct && ((sortedStruct->statusWanted != REC_STATUS_VALID) || (sortedStruct->typeWantedStart != 0))) {
+		else if (sortedStruct && ((sortedStruct->statusWanted != REC_STATUS_VALID) || (sortedStruct->typeWantedStart != 0) ||
+				(sortedStruct->lastWriteTimeSearch > 0))) {
 			//  The sort list is for the complete catalog only
 			sortListStatus = 0;
 		}
@@ -143,6 +178,9 @@ int zcatInternalSort(long long *ifltab, const char *pathWithWild, zStructCatalog
 		nonSortedStruct->statusWanted = sortedStruct->statusWanted;
 		nonSortedStruct->typeWantedStart = sortedStruct->typeWantedStart;
 		nonSortedStruct->typeWantedEnd = sortedStruct->typeWantedEnd;
+		nonSortedStruct->lastWriteTimeSearch = sortedStruct->lastWriteTimeSearch;
+		nonSortedStruct->lastWriteTimeSearchFlag = sortedStruct->lastWriteTimeSearchFlag;
+		nonSortedStruct->boolGetCRCvalues = sortedStruct->boolGetCRCvalues;
 	}
 	sortAddresses = 0;
 
@@ -155,6 +193,7 @@ int zcatInternalSort(long long *ifltab, const char *pathWithWild, zStructCatalog
 		//  Catalog has full sort list
 		//  Get unsorted struct, sort list, then reorder for user
 		numberPathnames = zcatalogInternal (ifltab, pathWithWild, nonSortedStruct, 0, 0, 0, 0, 0);
+		if (sortedStruct) sortedStruct->lastWriteTimeFile = nonSortedStruct->lastWriteTimeFile;
 		if (numberPathnames <= 0) {
 			if (nonSortedStruct) zstructFree(nonSortedStruct);
 			nonSortedStruct = 0;
@@ -230,10 +269,16 @@ int zcatInternalSort(long long *ifltab, const char *pathWithWild, zStructCatalog
 										zdssErrorSeverity.MEMORY_ERROR, "", "Allocating space for startDates / endDates");
 					}
 				}
+				if (zcatSortAllocate(sortedStruct, nonSortedStruct) < 0) {
+					return zerrorProcessing(ifltab, DSS_FUNCTION_zcatalog_ID,
+									zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, sortedStruct->listSize, 0,
+									zdssErrorSeverity.MEMORY_ERROR, "", "Allocating space for sorted catalog");
+				}
 				icount = 0;
 				for (i=0; i<nonSortedStruct->numberPathnames; i++) {
 					for (j=0; j<numberPathnames; j++) {
 						if (sortAddresses[i] == nonSortedStruct->sortAddresses[j]) {
+							zcatSortCopy(sortedStruct, icount, nonSortedStruct, j);
 							sortedStruct->pathnameList[icount] = nonSortedStruct->pathnameList[j];
 							nonSortedStruct->pathnameList[j] = 0;
 							if (sortedStruct->boolIncludeDates) {
@@ -312,6 +357,7 @@ int zcatInternalSort(long long *ifltab, const char *pathWithWild, zStructCatalog
 	}
 	//  For both DSS-6 and DSS-7
 	numberPathnames = zcatalogInternal (ifltab, pathWithWild, nonSortedStruct, unsortedHandle, 0, 0, boolCollection, 1);
+	if (sortedStruct) sortedStruct->lastWriteTimeFile = nonSortedStruct->lastWriteTimeFile;
 	if (numberPathnames < 0) {
 		return numberPathnames;
 	}
@@ -374,6 +420,11 @@ int zcatInternalSort(long long *ifltab, const char *pathWithWild, zStructCatalog
 								zdssErrorSeverity.MEMORY_ERROR, "", "Allocating space for startDates / endDates");
 			}
 		}
+		if (zcatSortAllocate(sortedStruct, nonSortedStruct) < 0) {
+			return zerrorProcessing(ifltab, DSS_FUNCTION_zcatalog_ID,
+							zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, sortedStruct->listSize, 0,
+							zdssErrorSeverity.MEMORY_ERROR, "", "Allocating space for sorted catalog");
+		}
 		if (zgetVersion(ifltab) == 7) {
 			if ((numberPathnames == (int)fileHeader[zdssFileKeys.knumberRecords]) && (nonSortedStruct->sortAddresses)){
 				sortedStruct->sortAddresses = (long long*)calloc((size_t)sortedStruct->listSize, LONG_SIZE);
@@ -445,6 +496,7 @@ int zcatInternalSort(long long *ifltab, const char *pathWithWild, zStructCatalog
 					sortedStruct->startDates[i] = nonSortedStruct->startDates[sequence];
 					sortedStruct->endDates[i]   = nonSortedStruct->endDates[sequence];
 				}
+				zcatSortCopy(sortedStruct, i, nonSortedStruct, sequence);
 				if (sortedStruct->attributes) {}
 				if (sortedStruct->sortAddresses && nonSortedStruct->sortAddresses) {
 					sortedStruct->sortAddresses[i] = nonSortedStruct->sortAddresses[sequence];
-- 
2.43.0


From 8de4f06b4bc99167ad62b4afe5fca71b866b8701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:31 +0000
Subject: [PATCH 70/75] fix: a change tracking start point can be set with
 exclusive access

---
 heclib/heclib_c/src/Public/zwhatChangedSetStart.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/heclib/heclib_c/src/Public/zwhatChangedSetStart.c b/heclib/heclib_c/src/Public/zwhatChangedSetStart.c
index 751345b..ec10911 100644
--- a/heclib/heclib_c/src/Public/zwhatChangedSetStart.c
+++ b/heclib/heclib_c/src/Public/zwhatChangedSetStart.c
@@ -88,9 +88,13 @@ int zwhatChangedSetStart(long long *ifltab, zStructCatalog *catStruct, const cha
 	else {
 		//  If we are NOT using CRC, but just last written time, no need to do a full catalog
 		//  Just save last write time and path with wild characters.
-		status = zpermRead(ifltab);
-		if (zisError(status)) {
-			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zcatalog_ID);
+		status = STATUS_OKAY;
+		if (!ifltab[zdssKeys.kwritingNow]) {
+			//  (With exclusive access the header in memory is the current one)
+			status = zpermRead(ifltab);
+			if (zisError(status)) {
+				return zerrorUpdate(ifltab, status, DSS_FUNCTION_zcatalog_ID);
+			}
 		}
 		fileHeader = (long long *)ifltab[zdssKeys.kfileHeader];
 		catStructLocal->lastWriteTimeFile = fileHeader[zdssFileKeys.klastWriteTime];
-- 
2.43.0


From 9cb48368d5a0c0e2d0905d03df623e2a4efe7167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:31 +0000
Subject: [PATCH 71/75] fix: renaming onto a deleted name keeps the write time
 in the catalogue

---
 heclib/heclib_c/src/Public/zrename.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/heclib/heclib_c/src/Public/zrename.c b/heclib/heclib_c/src/Public/zrename.c
index 9b0a1f9..46bc2a5 100644
--- a/heclib/heclib_c/src/Public/zrename.c
+++ b/heclib/heclib_c/src/Public/zrename.c
@@ -65,6 +65,7 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 	long long binStatus;
 	long long eofWord;
 	long long icurrentTime;
+	long long binLastWrite;
 	int dataType;
 	int temp;
 	int numberInfoOld;
@@ -318,6 +319,7 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 	//  Save the first and last date from the old info area
 	ifltab[zdssKeys.kdataFirstDate] = info[zdssInfoKeys.kinfoFirstDate];
 	ifltab[zdssKeys.kdataLastDate] = info[zdssInfoKeys.kinfoLastDate];
+	binLastWrite = ifltab[zdssKeys.kbinLastWrite];
 
 	//  Now load the new pathname hash
 	status = zcheckInternal(ifltab, newPath, 1);
@@ -384,6 +386,8 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 
 	//  Update the pathname bin area
 	i8toi4(info[zdssInfoKeys.kinfoTypeVersion], &dataType, &temp);
+	//  (the check of the new pathname may have loaded the write time of a deleted record)
+	ifltab[zdssKeys.kbinLastWrite] = binLastWrite;
 	istat = zbinUpdate(ifltab, newPath, ifltab[zdssKeys.kaddInfoLastPath], 1, dataType);
 
 	//  Now write the information area to disk
-- 
2.43.0


From 66c00baa936ee6a40f8a35405d71e6941b20aa28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:31 +0000
Subject: [PATCH 72/75] fix: a start point of change tracking outlives a sorted
 catalogue

---
 heclib/heclib_c/src/Internal/zcheckAccessReset.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/heclib/heclib_c/src/Internal/zcheckAccessReset.c b/heclib/heclib_c/src/Internal/zcheckAccessReset.c
index ea39ad7..810c166 100644
--- a/heclib/heclib_c/src/Internal/zcheckAccessReset.c
+++ b/heclib/heclib_c/src/Internal/zcheckAccessReset.c
@@ -58,6 +58,7 @@ int zcheckAccessReset(long long *ifltab, int boolForce, int quiescentTimeMills)
 	int status;
 	int access;
 	long long ltime;
+	long long catStruct;
 	char fullFilename[256];
 
 
@@ -102,17 +103,24 @@ int zcheckAccessReset(long long *ifltab, int boolForce, int quiescentTimeMills)
 		}
 	}
 
+	//  Keep the start point of zwhatChanged, which closing would free
+	catStruct = ifltab[zdssKeys.kcatStruct];
+	ifltab[zdssKeys.kcatStruct] = 0;
+
 	//  Now close the file
 	status = zcloseInternal(ifltab, 0);
 	if (zisError(status)) {
+		if (catStruct) zstructFree((void *)catStruct);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zclose_ID);
 	}
 
 	//  Reopen the file (as if it had not been written to)
 	status = zopenInternal(ifltab, fullFilename, access, 0, 0, 0, 1);
 	if (zisError(status)) {
+		if (catStruct) zstructFree((void *)catStruct);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zclose_ID);
 	}
+	ifltab[zdssKeys.kcatStruct] = catStruct;
 
 	if (zmessageLevel(ifltab, MESS_METHOD_OPEN_ID, MESS_LEVEL_INTERNAL_DIAG_1)) {
 		zmessageDebugInt(ifltab, DSS_FUNCTION_zopen_ID, "Exit zcheckAccessReset, status: ", status);
-- 
2.43.0


From e4c559c62672eb883c2a4b337d41ceb4b1d4ca00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:02 +0000
Subject: [PATCH 73/75] fix: a sorted catalogue is in order by D and F parts of
 any length

---
 heclib/heclib_c/src/Internal/zcatalogInternal.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zcatalogInternal.c b/heclib/heclib_c/src/Internal/zcatalogInternal.c
index 41f17e9..e1d634f 100644
--- a/heclib/heclib_c/src/Internal/zcatalogInternal.c
+++ b/heclib/heclib_c/src/Internal/zcatalogInternal.c
@@ -250,9 +250,12 @@ int zcatalogInternal (long long *ifltab, const char *pathWithWild, zStructCatalo
 	partMax[0] = (int)fileHeader[zdssFileKeys.kmaxA];
 	partMax[1] = (int)fileHeader[zdssFileKeys.kmaxB];
 	partMax[2] = (int)fileHeader[zdssFileKeys.kmaxC];
-	partMax[3] = (int)fileHeader[zdssFileKeys.kmaxF];
+	partMax[3] = (int)fileHeader[zdssFileKeys.kmaxD];
 	partMax[4] = (int)fileHeader[zdssFileKeys.kmaxE];
-	partMax[5] = (int)fileHeader[zdssFileKeys.kmaxD];
+	partMax[5] = (int)fileHeader[zdssFileKeys.kmaxF];
+	//  zcatSortPath replaces dates and intervals by numbers, which have to fit too
+	if (partMax[3] < 20) partMax[3] = 20;
+	if (partMax[4] < 12) partMax[4] = 12;
 
 	countRecs = 0;
 	countTotal = 0;
-- 
2.43.0


From a9b5b60a05539b86a2664ff44a2bf51acb00611f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:09 +0000
Subject: [PATCH 74/75] fix: reading a user header of odd length stays within
 the array given

---
 heclib/heclib_c/src/Internal/zreadInternal.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Internal/zreadInternal.c b/heclib/heclib_c/src/Internal/zreadInternal.c
index 164327e..4ec0082 100644
--- a/heclib/heclib_c/src/Internal/zreadInternal.c
+++ b/heclib/heclib_c/src/Internal/zreadInternal.c
@@ -377,7 +377,8 @@ int zreadInternal(long long *ifltab, zStructTransfer* ztransfer,
 				}
 				bufferAction = BUFF_NO_ACTION;
 			}
-			if (isOdd(ztransfer->userHeaderNumber)) {
+			//  (An array that was passed in might not have room for the other half of the last 64 bit word)
+			if (isOdd(ztransfer->userHeaderNumber) && (ztransfer->userHeaderMode == 1)) {
 				status = zgetBuff(ifltab, ztransfer->info[zdssInfoKeys.kinfoUserHeadAddress], ztransfer->userHeader,
 					ztransfer->userHeaderNumber+1, 1, bufferAction, bufferControl, buffer);
 			}
-- 
2.43.0


From 1e66ddecb987f3757064545fab74e77fcd166b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:59 +0000
Subject: [PATCH 75/75] fix: a name written again takes the place of its
 deleted one

---
 heclib/heclib_c/src/Internal/zcheckInternal.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zcheckInternal.c b/heclib/heclib_c/src/Internal/zcheckInternal.c
index daf82ac..46031ea 100644
--- a/heclib/heclib_c/src/Internal/zcheckInternal.c
+++ b/heclib/heclib_c/src/Internal/zcheckInternal.c
@@ -404,8 +404,8 @@ int zcheckInternal(long long *ifltab, const char* pathname, int statusWanted)
 			if ((binStatus == REC_STATUS_DELETED) || (binStatus == REC_STATUS_MOVED) && (ifltab[zdssKeys.kreclaimLevel] > RECLAIM_NONE)) {
 				//  Did we already find space?
 			   if (ifltab[zdssKeys.kbinWithSpace] == 0) {
-				   //  Is this spot big enough?
-					if (pathSizeIn <= pathnameSize) {
+				   //  Does the pathname fit this spot?  (zbinUpdate only uses one of the very same size)
+					if (pathSizeIn == pathnameSize) {
 						//  Save the first address where this is found
 						//  (Note - this operation is only valid with the current pathname)
 						ifltab[zdssKeys.kbinWithSpace] = binAddress;
-- 
2.43.0

