From 946f36f6f790b083927515aff7bcf65f40528750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:03 +0000
Subject: [PATCH 01/45] fix: compare a new key with the last record of a
 partially filled page

After a flush the last data page may hold fewer than maxRecordsPerPage
records; the key check read the last slot of the page, so duplicate and
smaller keys were accepted.
---
 lib/Distribution/embedDB.c | 11 ++++++++---
 src/embedDB/embedDB.c      | 11 ++++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index a60e217..b1a2da2 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1432,9 +1432,14 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
     if (state->nextDataPageId > 0 || count > 0) {
         void *previousKey = NULL;
         if (count == 0) {
-            readPage(state, (state->nextDataPageId - 1) % state->numDataPages);
-            previousKey = ((int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_READ_BUFFER) +
-                          (state->recordSize * (state->maxRecordsPerPage - 1)) + state->headerSize;
+            if (readPage(state, (state->nextDataPageId - 1) % state->numDataPages) != 0) {
+#ifdef PRINT_ERRORS
+                printf("ERROR: Unable to read the last data page to check the order of keys. Insert Failed.\n");
+#endif
+                return -1;
+            }
+            /* The last page may be partially filled if it was flushed, so its largest key is in its last record */
+            previousKey = embedDBGetMaxKey(state, (int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_READ_BUFFER);
         } else {
             previousKey = (int8_t *)state->buffer + (state->recordSize * (count - 1)) + state->headerSize;
         }
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 5e6b43f..786c6ee 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1008,9 +1008,14 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
     if (state->nextDataPageId > 0 || count > 0) {
         void *previousKey = NULL;
         if (count == 0) {
-            readPage(state, (state->nextDataPageId - 1) % state->numDataPages);
-            previousKey = ((int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_READ_BUFFER) +
-                          (state->recordSize * (state->maxRecordsPerPage - 1)) + state->headerSize;
+            if (readPage(state, (state->nextDataPageId - 1) % state->numDataPages) != 0) {
+#ifdef PRINT_ERRORS
+                printf("ERROR: Unable to read the last data page to check the order of keys. Insert Failed.\n");
+#endif
+                return -1;
+            }
+            /* The last page may be partially filled if it was flushed, so its largest key is in its last record */
+            previousKey = embedDBGetMaxKey(state, (int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_READ_BUFFER);
         } else {
             previousKey = (int8_t *)state->buffer + (state->recordSize * (count - 1)) + state->headerSize;
         }
-- 
2.43.0


From 7265cca85707638b356fed3c71f526abe1e35152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:23 +0000
Subject: [PATCH 02/45] fix: do not touch the spline when binary search is used

With EMBEDDB_USE_BINARY_SEARCH no spline is allocated, but opening an
iterator, wrapping around and shifting the record-level consistency
blocks dereferenced it.
---
 lib/Distribution/embedDB.c | 8 +++++---
 src/embedDB/embedDB.c      | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index b1a2da2..0dc1ed8 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -644,6 +644,8 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
         }
         state->spl = malloc(sizeof(spline));
         splineInit(state->spl, state->numSplinePoints, indexMaxError, state->keySize);
+    } else {
+        state->spl = NULL;
     }
 
     /* Allocate file for data*/
@@ -1587,7 +1589,7 @@ int8_t shiftRecordLevelConsistencyBlocks(embedDBState *state) {
         state->minDataPageId += state->eraseSizeInPages;
 
         /* remove any spline points related to these pages */
-        if (!EMBEDDB_DISABLED_SPLINE_CLEAN(state->parameters)) {
+        if (!EMBEDDB_USING_BINARY_SEARCH(state->parameters) && !EMBEDDB_DISABLED_SPLINE_CLEAN(state->parameters)) {
             cleanSpline(state, state->minDataPageId);
         }
     }
@@ -2035,7 +2037,7 @@ void embedDBInitIterator(embedDBState *state, embedDBIterator *it) {
 #endif
 
     /* Determine which data page should be the first examined if there is a min key and that we have spline points */
-    if (state->spl->count != 0 && it->minKey != NULL && !(EMBEDDB_USING_BINARY_SEARCH(state->parameters))) {
+    if (!EMBEDDB_USING_BINARY_SEARCH(state->parameters) && it->minKey != NULL && state->spl->count != 0) {
         /* Spline search */
         uint32_t location, lowbound, highbound = 0;
         splineFind(state->spl, it->minKey, state->compareKey, &location, &lowbound, &highbound);
@@ -2447,7 +2449,7 @@ id_t writePage(embedDBState *state, void *buffer) {
         state->minDataPageId += state->eraseSizeInPages;
 
         /* remove any spline points related to these pages */
-        if (!EMBEDDB_DISABLED_SPLINE_CLEAN(state->parameters)) {
+        if (!EMBEDDB_USING_BINARY_SEARCH(state->parameters) && !EMBEDDB_DISABLED_SPLINE_CLEAN(state->parameters)) {
             cleanSpline(state, state->minDataPageId);
         }
     }
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 786c6ee..7416ab1 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -220,6 +220,8 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
         }
         state->spl = malloc(sizeof(spline));
         splineInit(state->spl, state->numSplinePoints, indexMaxError, state->keySize);
+    } else {
+        state->spl = NULL;
     }
 
     /* Allocate file for data*/
@@ -1163,7 +1165,7 @@ int8_t shiftRecordLevelConsistencyBlocks(embedDBState *state) {
         state->minDataPageId += state->eraseSizeInPages;
 
         /* remove any spline points related to these pages */
-        if (!EMBEDDB_DISABLED_SPLINE_CLEAN(state->parameters)) {
+        if (!EMBEDDB_USING_BINARY_SEARCH(state->parameters) && !EMBEDDB_DISABLED_SPLINE_CLEAN(state->parameters)) {
             cleanSpline(state, state->minDataPageId);
         }
     }
@@ -1611,7 +1613,7 @@ void embedDBInitIterator(embedDBState *state, embedDBIterator *it) {
 #endif
 
     /* Determine which data page should be the first examined if there is a min key and that we have spline points */
-    if (state->spl->count != 0 && it->minKey != NULL && !(EMBEDDB_USING_BINARY_SEARCH(state->parameters))) {
+    if (!EMBEDDB_USING_BINARY_SEARCH(state->parameters) && it->minKey != NULL && state->spl->count != 0) {
         /* Spline search */
         uint32_t location, lowbound, highbound = 0;
         splineFind(state->spl, it->minKey, state->compareKey, &location, &lowbound, &highbound);
@@ -2023,7 +2025,7 @@ id_t writePage(embedDBState *state, void *buffer) {
         state->minDataPageId += state->eraseSizeInPages;
 
         /* remove any spline points related to these pages */
-        if (!EMBEDDB_DISABLED_SPLINE_CLEAN(state->parameters)) {
+        if (!EMBEDDB_USING_BINARY_SEARCH(state->parameters) && !EMBEDDB_DISABLED_SPLINE_CLEAN(state->parameters)) {
             cleanSpline(state, state->minDataPageId);
         }
     }
-- 
2.43.0


From 4962a6f64d37cbe5925c2b4b2bcf6c77b0611b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:19 +0000
Subject: [PATCH 03/45] fix: forget buffered pages when their storage is erased
 or rewritten

Reads after a wrap-around could be answered from a page held in a read
buffer although its physical page had been erased or reused; the block of
variable data given up was also read after it had been erased.
---
 lib/Distribution/embedDB.c | 66 ++++++++++++++++++++++++++++++--------
 src/embedDB/embedDB.c      | 66 ++++++++++++++++++++++++++++++--------
 2 files changed, 104 insertions(+), 28 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 0dc1ed8..e26c06c 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -488,6 +488,7 @@ int8_t embedDBSetupVarDataStream(embedDBState *state, void *key, embedDBVarDataS
 uint32_t cleanSpline(embedDBState *state, uint32_t minPageNumber);
 void readToWriteBuf(embedDBState *state);
 void readToWriteBufVar(embedDBState *state);
+void invalidateBufferedPages(id_t *bufferedPageId, id_t startPage, id_t endPage);
 
 void printBitmap(char *bm) {
     for (int8_t i = 0; i <= 7; i++) {
@@ -908,6 +909,7 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
 #endif
             return -1;
         }
+        invalidateBufferedPages(&state->bufferedPageId, count, count + blockSize);
     }
 
     /* go to the next block boundary */
@@ -971,6 +973,7 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
 #endif
             return -1;
         }
+        invalidateBufferedPages(&state->bufferedPageId, eraseStartingPage, eraseEndingPage);
         eraseStartingPage = eraseEndingPage % state->numDataPages;
     }
 
@@ -1579,6 +1582,7 @@ int8_t shiftRecordLevelConsistencyBlocks(embedDBState *state) {
 #endif
             return -1;
         }
+        invalidateBufferedPages(&state->bufferedPageId, eraseStartingPage, eraseEndingPage);
         eraseStartingPage = eraseEndingPage % state->numDataPages;
     }
 
@@ -1849,9 +1853,12 @@ int8_t splineSearch(embedDBState *state, void *buffer, void *key) {
         location = (lowbound + highbound) / 2;
     }
 
-    // Check if the currently buffered page is the correct one
-    if (!(lowbound <= state->bufferedPageId &&
-          highbound >= state->bufferedPageId &&
+    // Check if the currently buffered page is the correct one. The bounds are logical page ids, so use the id in the header of the page
+    id_t bufferedLogicalPageId = 0;
+    memcpy(&bufferedLogicalPageId, buffer, sizeof(id_t));
+    if (!(state->bufferedPageId != (id_t)-1 &&
+          lowbound <= bufferedLogicalPageId &&
+          highbound >= bufferedLogicalPageId &&
           state->compareKey(embedDBGetMinKey(state, buffer), key) <= 0 &&
           state->compareKey(embedDBGetMaxKey(state, buffer), key) >= 0)) {
         if (linearSearch(state, buffer, key, location, lowbound, highbound) == -1) {
@@ -2444,6 +2451,8 @@ id_t writePage(embedDBState *state, void *buffer) {
             return -1;
         }
 
+        invalidateBufferedPages(&state->bufferedPageId, physicalPageNum, physicalPageNum + state->eraseSizeInPages);
+
         /* Flag the pages as usable to EmbedDB */
         state->numAvailDataPages += state->eraseSizeInPages;
         state->minDataPageId += state->eraseSizeInPages;
@@ -2456,6 +2465,7 @@ id_t writePage(embedDBState *state, void *buffer) {
 
     /* Seek to page location in file */
     int32_t val = state->fileInterface->write(buffer, physicalPageNum, state->pageSize, state->dataFile);
+    invalidateBufferedPages(&state->bufferedPageId, physicalPageNum, physicalPageNum + 1);
     if (val == 0) {
 #ifdef PRINT_ERRORS
         printf("Failed to write data page: %i (%i)\n", pageNum, physicalPageNum);
@@ -2508,9 +2518,11 @@ int8_t writeTemporaryPage(embedDBState *state, void *buffer) {
             return -2;
 #endif
         }
+        invalidateBufferedPages(&state->bufferedPageId, eraseStartingPage, eraseEndingPage);
     }
 
     /* Write temporary page to storage */
+    invalidateBufferedPages(&state->bufferedPageId, state->nextRLCPhysicalPageLocation, state->nextRLCPhysicalPageLocation + 1);
     int8_t writeSuccess = state->fileInterface->write(buffer, state->nextRLCPhysicalPageLocation++, state->pageSize, state->dataFile);
     if (!writeSuccess) {
 #ifdef PRINT_ERRORS
@@ -2575,12 +2587,14 @@ id_t writeIndexPage(embedDBState *state, void *buffer) {
 #endif
             return -1;
         }
+        invalidateBufferedPages(&state->bufferedIndexPageId, physicalPageNumber, physicalPageNumber + state->eraseSizeInPages);
         state->numAvailIndexPages += state->eraseSizeInPages;
         state->minIndexPageId += state->eraseSizeInPages;
     }
 
     /* Seek to page location in file */
     int32_t val = state->fileInterface->write(buffer, physicalPageNumber, state->pageSize, state->indexFile);
+    invalidateBufferedPages(&state->bufferedIndexPageId, physicalPageNumber, physicalPageNumber + 1);
     if (val == 0) {
 #ifdef PRINT_ERRORS
         printf("Failed to write index page: %i (%i)\n", pageNum, physicalPageNumber);
@@ -2610,6 +2624,16 @@ id_t writeVariablePage(embedDBState *state, void *buffer) {
 
     // Erase data if needed
     if (state->numAvailVarPages <= 0) {
+        // Last page that is deleted
+        id_t pageNum = (physicalPageId + state->eraseSizeInPages - 1) % state->numVarPages;
+
+        // Read in that page before it is erased so we can update which records we still have the data for
+        if (readVariablePage(state, pageNum) != 0) {
+            return -1;
+        }
+        uint64_t lastErasedRecordId = 0;
+        memcpy(&lastErasedRecordId, (int8_t *)state->buffer + state->pageSize * EMBEDDB_VAR_READ_BUFFER(state->parameters) + sizeof(id_t), state->keySize);
+
         int8_t eraseResult = state->fileInterface->erase(physicalPageId, physicalPageId + state->eraseSizeInPages, state->pageSize, state->varFile);
         if (eraseResult != 1) {
 #ifdef PRINT_ERRORS
@@ -2617,17 +2641,9 @@ id_t writeVariablePage(embedDBState *state, void *buffer) {
 #endif
             return -1;
         }
+        invalidateBufferedPages(&state->bufferedVarPage, physicalPageId, physicalPageId + state->eraseSizeInPages);
         state->numAvailVarPages += state->eraseSizeInPages;
-        // Last page that is deleted
-        id_t pageNum = (physicalPageId + state->eraseSizeInPages - 1) % state->numVarPages;
-
-        // Read in that page so we can update which records we still have the data for
-        if (readVariablePage(state, pageNum) != 0) {
-            return -1;
-        }
-        void *buf = (int8_t *)state->buffer + state->pageSize * EMBEDDB_VAR_READ_BUFFER(state->parameters) + sizeof(id_t);
-        memcpy(&state->minVarRecordId, buf, state->keySize);
-        state->minVarRecordId += 1;  // Add one because the result from the last line is a record that is erased
+        state->minVarRecordId = lastErasedRecordId + 1;  // Add one because lastErasedRecordId is a record that is erased
     }
 
     // Add logical page number to data page
@@ -2636,6 +2652,7 @@ id_t writeVariablePage(embedDBState *state, void *buffer) {
 
     // Write to file
     uint32_t val = state->fileInterface->write(buffer, physicalPageId, state->pageSize, state->varFile);
+    invalidateBufferedPages(&state->bufferedVarPage, physicalPageId, physicalPageId + 1);
     if (val == 0) {
 #ifndef PRINT
         printf("Failed to write vardata page: %i\n", state->nextVarPageId);
@@ -2661,6 +2678,8 @@ void readToWriteBuf(embedDBState *state) {
     void *writeBuf = (int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_WRITE_BUFFER;
     // copy write buffer to the read buffer.
     memcpy(readBuf, writeBuf, state->pageSize);
+    // the read buffer no longer holds a page of the data file
+    state->bufferedPageId = -1;
 }
 
 /**
@@ -2674,6 +2693,20 @@ void readToWriteBufVar(embedDBState *state) {
     void *writeBuf = (int8_t *)state->buffer + state->pageSize * EMBEDDB_VAR_WRITE_BUFFER(state->parameters);
     // copy write buffer to the read buffer.
     memcpy(readBuf, writeBuf, state->pageSize);
+    // the read buffer no longer holds a page of the variable data file
+    state->bufferedVarPage = -1;
+}
+
+/**
+ * @brief	Forgets the page held in a read buffer if its physical page is changed on storage.
+ * @param	bufferedPageId	Physical id of the page in the read buffer
+ * @param	startPage		First physical page that changed
+ * @param	endPage			Last physical page that changed (exclusive)
+ */
+void invalidateBufferedPages(id_t *bufferedPageId, id_t startPage, id_t endPage) {
+    if (*bufferedPageId >= startPage && *bufferedPageId < endPage) {
+        *bufferedPageId = -1;
+    }
 }
 
 /**
@@ -2693,6 +2726,8 @@ int8_t readPage(embedDBState *state, id_t pageNum) {
 
     /* Page is not in buffer. Read from storage. */
     /* Read page into start of buffer 1 */
+    /* A failed read may leave anything in the buffer */
+    state->bufferedPageId = -1;
     if (0 == state->fileInterface->read(buf, pageNum, state->pageSize, state->dataFile))
         return -1;
 
@@ -2718,6 +2753,8 @@ int8_t readIndexPage(embedDBState *state, id_t pageNum) {
 
     /* Page is not in buffer. Read from storage. */
     /* Read page into start of buffer */
+    /* A failed read may leave anything in the buffer */
+    state->bufferedIndexPageId = -1;
     if (0 == state->fileInterface->read(buf, pageNum, state->pageSize, state->indexFile))
         return -1;
 
@@ -2742,7 +2779,8 @@ int8_t readVariablePage(embedDBState *state, id_t pageNum) {
     // Get buffer to read into
     void *buf = (int8_t *)state->buffer + EMBEDDB_VAR_READ_BUFFER(state->parameters) * state->pageSize;
 
-    // Read in one page worth of data
+    // Read in one page worth of data. A failed read may leave anything in the buffer
+    state->bufferedVarPage = -1;
     if (state->fileInterface->read(buf, pageNum, state->pageSize, state->varFile) == 0) {
         return -1;
     }
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 7416ab1..5dc76cd 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -64,6 +64,7 @@ int8_t embedDBSetupVarDataStream(embedDBState *state, void *key, embedDBVarDataS
 uint32_t cleanSpline(embedDBState *state, uint32_t minPageNumber);
 void readToWriteBuf(embedDBState *state);
 void readToWriteBufVar(embedDBState *state);
+void invalidateBufferedPages(id_t *bufferedPageId, id_t startPage, id_t endPage);
 
 void printBitmap(char *bm) {
     for (int8_t i = 0; i <= 7; i++) {
@@ -484,6 +485,7 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
 #endif
             return -1;
         }
+        invalidateBufferedPages(&state->bufferedPageId, count, count + blockSize);
     }
 
     /* go to the next block boundary */
@@ -547,6 +549,7 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
 #endif
             return -1;
         }
+        invalidateBufferedPages(&state->bufferedPageId, eraseStartingPage, eraseEndingPage);
         eraseStartingPage = eraseEndingPage % state->numDataPages;
     }
 
@@ -1155,6 +1158,7 @@ int8_t shiftRecordLevelConsistencyBlocks(embedDBState *state) {
 #endif
             return -1;
         }
+        invalidateBufferedPages(&state->bufferedPageId, eraseStartingPage, eraseEndingPage);
         eraseStartingPage = eraseEndingPage % state->numDataPages;
     }
 
@@ -1425,9 +1429,12 @@ int8_t splineSearch(embedDBState *state, void *buffer, void *key) {
         location = (lowbound + highbound) / 2;
     }
 
-    // Check if the currently buffered page is the correct one
-    if (!(lowbound <= state->bufferedPageId &&
-          highbound >= state->bufferedPageId &&
+    // Check if the currently buffered page is the correct one. The bounds are logical page ids, so use the id in the header of the page
+    id_t bufferedLogicalPageId = 0;
+    memcpy(&bufferedLogicalPageId, buffer, sizeof(id_t));
+    if (!(state->bufferedPageId != (id_t)-1 &&
+          lowbound <= bufferedLogicalPageId &&
+          highbound >= bufferedLogicalPageId &&
           state->compareKey(embedDBGetMinKey(state, buffer), key) <= 0 &&
           state->compareKey(embedDBGetMaxKey(state, buffer), key) >= 0)) {
         if (linearSearch(state, buffer, key, location, lowbound, highbound) == -1) {
@@ -2020,6 +2027,8 @@ id_t writePage(embedDBState *state, void *buffer) {
             return -1;
         }
 
+        invalidateBufferedPages(&state->bufferedPageId, physicalPageNum, physicalPageNum + state->eraseSizeInPages);
+
         /* Flag the pages as usable to EmbedDB */
         state->numAvailDataPages += state->eraseSizeInPages;
         state->minDataPageId += state->eraseSizeInPages;
@@ -2032,6 +2041,7 @@ id_t writePage(embedDBState *state, void *buffer) {
 
     /* Seek to page location in file */
     int32_t val = state->fileInterface->write(buffer, physicalPageNum, state->pageSize, state->dataFile);
+    invalidateBufferedPages(&state->bufferedPageId, physicalPageNum, physicalPageNum + 1);
     if (val == 0) {
 #ifdef PRINT_ERRORS
         printf("Failed to write data page: %i (%i)\n", pageNum, physicalPageNum);
@@ -2084,9 +2094,11 @@ int8_t writeTemporaryPage(embedDBState *state, void *buffer) {
             return -2;
 #endif
         }
+        invalidateBufferedPages(&state->bufferedPageId, eraseStartingPage, eraseEndingPage);
     }
 
     /* Write temporary page to storage */
+    invalidateBufferedPages(&state->bufferedPageId, state->nextRLCPhysicalPageLocation, state->nextRLCPhysicalPageLocation + 1);
     int8_t writeSuccess = state->fileInterface->write(buffer, state->nextRLCPhysicalPageLocation++, state->pageSize, state->dataFile);
     if (!writeSuccess) {
 #ifdef PRINT_ERRORS
@@ -2151,12 +2163,14 @@ id_t writeIndexPage(embedDBState *state, void *buffer) {
 #endif
             return -1;
         }
+        invalidateBufferedPages(&state->bufferedIndexPageId, physicalPageNumber, physicalPageNumber + state->eraseSizeInPages);
         state->numAvailIndexPages += state->eraseSizeInPages;
         state->minIndexPageId += state->eraseSizeInPages;
     }
 
     /* Seek to page location in file */
     int32_t val = state->fileInterface->write(buffer, physicalPageNumber, state->pageSize, state->indexFile);
+    invalidateBufferedPages(&state->bufferedIndexPageId, physicalPageNumber, physicalPageNumber + 1);
     if (val == 0) {
 #ifdef PRINT_ERRORS
         printf("Failed to write index page: %i (%i)\n", pageNum, physicalPageNumber);
@@ -2186,6 +2200,16 @@ id_t writeVariablePage(embedDBState *state, void *buffer) {
 
     // Erase data if needed
     if (state->numAvailVarPages <= 0) {
+        // Last page that is deleted
+        id_t pageNum = (physicalPageId + state->eraseSizeInPages - 1) % state->numVarPages;
+
+        // Read in that page before it is erased so we can update which records we still have the data for
+        if (readVariablePage(state, pageNum) != 0) {
+            return -1;
+        }
+        uint64_t lastErasedRecordId = 0;
+        memcpy(&lastErasedRecordId, (int8_t *)state->buffer + state->pageSize * EMBEDDB_VAR_READ_BUFFER(state->parameters) + sizeof(id_t), state->keySize);
+
         int8_t eraseResult = state->fileInterface->erase(physicalPageId, physicalPageId + state->eraseSizeInPages, state->pageSize, state->varFile);
         if (eraseResult != 1) {
 #ifdef PRINT_ERRORS
@@ -2193,17 +2217,9 @@ id_t writeVariablePage(embedDBState *state, void *buffer) {
 #endif
             return -1;
         }
+        invalidateBufferedPages(&state->bufferedVarPage, physicalPageId, physicalPageId + state->eraseSizeInPages);
         state->numAvailVarPages += state->eraseSizeInPages;
-        // Last page that is deleted
-        id_t pageNum = (physicalPageId + state->eraseSizeInPages - 1) % state->numVarPages;
-
-        // Read in that page so we can update which records we still have the data for
-        if (readVariablePage(state, pageNum) != 0) {
-            return -1;
-        }
-        void *buf = (int8_t *)state->buffer + state->pageSize * EMBEDDB_VAR_READ_BUFFER(state->parameters) + sizeof(id_t);
-        memcpy(&state->minVarRecordId, buf, state->keySize);
-        state->minVarRecordId += 1;  // Add one because the result from the last line is a record that is erased
+        state->minVarRecordId = lastErasedRecordId + 1;  // Add one because lastErasedRecordId is a record that is erased
     }
 
     // Add logical page number to data page
@@ -2212,6 +2228,7 @@ id_t writeVariablePage(embedDBState *state, void *buffer) {
 
     // Write to file
     uint32_t val = state->fileInterface->write(buffer, physicalPageId, state->pageSize, state->varFile);
+    invalidateBufferedPages(&state->bufferedVarPage, physicalPageId, physicalPageId + 1);
     if (val == 0) {
 #ifndef PRINT
         printf("Failed to write vardata page: %i\n", state->nextVarPageId);
@@ -2237,6 +2254,8 @@ void readToWriteBuf(embedDBState *state) {
     void *writeBuf = (int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_WRITE_BUFFER;
     // copy write buffer to the read buffer.
     memcpy(readBuf, writeBuf, state->pageSize);
+    // the read buffer no longer holds a page of the data file
+    state->bufferedPageId = -1;
 }
 
 /**
@@ -2250,6 +2269,20 @@ void readToWriteBufVar(embedDBState *state) {
     void *writeBuf = (int8_t *)state->buffer + state->pageSize * EMBEDDB_VAR_WRITE_BUFFER(state->parameters);
     // copy write buffer to the read buffer.
     memcpy(readBuf, writeBuf, state->pageSize);
+    // the read buffer no longer holds a page of the variable data file
+    state->bufferedVarPage = -1;
+}
+
+/**
+ * @brief	Forgets the page held in a read buffer if its physical page is changed on storage.
+ * @param	bufferedPageId	Physical id of the page in the read buffer
+ * @param	startPage		First physical page that changed
+ * @param	endPage			Last physical page that changed (exclusive)
+ */
+void invalidateBufferedPages(id_t *bufferedPageId, id_t startPage, id_t endPage) {
+    if (*bufferedPageId >= startPage && *bufferedPageId < endPage) {
+        *bufferedPageId = -1;
+    }
 }
 
 /**
@@ -2269,6 +2302,8 @@ int8_t readPage(embedDBState *state, id_t pageNum) {
 
     /* Page is not in buffer. Read from storage. */
     /* Read page into start of buffer 1 */
+    /* A failed read may leave anything in the buffer */
+    state->bufferedPageId = -1;
     if (0 == state->fileInterface->read(buf, pageNum, state->pageSize, state->dataFile))
         return -1;
 
@@ -2294,6 +2329,8 @@ int8_t readIndexPage(embedDBState *state, id_t pageNum) {
 
     /* Page is not in buffer. Read from storage. */
     /* Read page into start of buffer */
+    /* A failed read may leave anything in the buffer */
+    state->bufferedIndexPageId = -1;
     if (0 == state->fileInterface->read(buf, pageNum, state->pageSize, state->indexFile))
         return -1;
 
@@ -2318,7 +2355,8 @@ int8_t readVariablePage(embedDBState *state, id_t pageNum) {
     // Get buffer to read into
     void *buf = (int8_t *)state->buffer + EMBEDDB_VAR_READ_BUFFER(state->parameters) * state->pageSize;
 
-    // Read in one page worth of data
+    // Read in one page worth of data. A failed read may leave anything in the buffer
+    state->bufferedVarPage = -1;
     if (state->fileInterface->read(buf, pageNum, state->pageSize, state->varFile) == 0) {
         return -1;
     }
-- 
2.43.0


From 708aa9f357f0bf25ad4523af920f982217d945b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:50 +0000
Subject: [PATCH 04/45] fix: reset the statistics also when variable data is
 used

embedDBInit returned before embedDBResetStats with EMBEDDB_USE_VDATA, leaving
the counters uninitialised; embedDBGetVar reported success without doing
anything when variable data is not in use.
---
 lib/Distribution/embedDB.c | 7 +++++--
 src/embedDB/embedDB.c      | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index e26c06c..22b8231 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -688,12 +688,15 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
         } else {
             varDataInitResult = embedDBInitVarData(state);
         }
-        return varDataInitResult;
     } else {
         state->varFile = NULL;
         state->numVarPages = 0;
     }
 
+    if (varDataInitResult != 0) {
+        return varDataInitResult;
+    }
+
     embedDBResetStats(state);
     return 0;
 }
@@ -1980,7 +1983,7 @@ int8_t embedDBGetVar(embedDBState *state, void *key, void *data, embedDBVarDataS
 #ifdef PRINT_ERRORS
         printf("ERROR: embedDBGetVar called when not using variable data\n");
 #endif
-        return 0;
+        return -1;
     }
     void *outputBuffer = (int8_t *)state->buffer;
 
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 5dc76cd..9176114 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -264,12 +264,15 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
         } else {
             varDataInitResult = embedDBInitVarData(state);
         }
-        return varDataInitResult;
     } else {
         state->varFile = NULL;
         state->numVarPages = 0;
     }
 
+    if (varDataInitResult != 0) {
+        return varDataInitResult;
+    }
+
     embedDBResetStats(state);
     return 0;
 }
@@ -1556,7 +1559,7 @@ int8_t embedDBGetVar(embedDBState *state, void *key, void *data, embedDBVarDataS
 #ifdef PRINT_ERRORS
         printf("ERROR: embedDBGetVar called when not using variable data\n");
 #endif
-        return 0;
+        return -1;
     }
     void *outputBuffer = (int8_t *)state->buffer;
 
-- 
2.43.0


From 598a0685efd4319c509bdbfdf37f19eff5df5f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:13 +0000
Subject: [PATCH 05/45] fix: create the data file if there is none to recover

Without EMBEDDB_RESET_DATA embedDBInit failed if the data file did not exist,
although the documentation promises recovery only if it does. A left over
index file is no longer recovered for an empty database.
---
 lib/Distribution/embedDB.c | 10 +++++-----
 src/embedDB/embedDB.c      | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 22b8231..aa8572b 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -721,9 +721,8 @@ int8_t embedDBInitData(embedDBState *state) {
     }
 
     /* Setup data file. */
-    int8_t openStatus = 0;
     if (!EMBEDDB_RESETING_DATA(state->parameters)) {
-        openStatus = state->fileInterface->open(state->dataFile, EMBEDDB_FILE_MODE_R_PLUS_B);
+        int8_t openStatus = state->fileInterface->open(state->dataFile, EMBEDDB_FILE_MODE_R_PLUS_B);
         if (openStatus) {
             if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) {
                 return embedDBInitDataFromFileWithRecordLevelConsistency(state);
@@ -731,10 +730,10 @@ int8_t embedDBInitData(embedDBState *state) {
                 return embedDBInitDataFromFile(state);
             }
         }
-    } else {
-        openStatus = state->fileInterface->open(state->dataFile, EMBEDDB_FILE_MODE_W_PLUS_B);
     }
 
+    /* There is no data to recover, so start with an empty file */
+    int8_t openStatus = state->fileInterface->open(state->dataFile, EMBEDDB_FILE_MODE_W_PLUS_B);
     if (!openStatus) {
 #ifdef PRINT_ERRORS
         printf("Error: Can't open data file!\n");
@@ -1067,7 +1066,8 @@ int8_t embedDBInitIndex(embedDBState *state) {
         return -1;
     }
 
-    if (!EMBEDDB_RESETING_DATA(state->parameters)) {
+    /* An index that was left behind by other data must not be used, so only recover it if there is data */
+    if (!EMBEDDB_RESETING_DATA(state->parameters) && state->nextDataPageId > 0) {
         int8_t openStatus = state->fileInterface->open(state->indexFile, EMBEDDB_FILE_MODE_R_PLUS_B);
         if (openStatus) {
             return embedDBInitIndexFromFile(state);
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 9176114..c6ea37b 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -297,9 +297,8 @@ int8_t embedDBInitData(embedDBState *state) {
     }
 
     /* Setup data file. */
-    int8_t openStatus = 0;
     if (!EMBEDDB_RESETING_DATA(state->parameters)) {
-        openStatus = state->fileInterface->open(state->dataFile, EMBEDDB_FILE_MODE_R_PLUS_B);
+        int8_t openStatus = state->fileInterface->open(state->dataFile, EMBEDDB_FILE_MODE_R_PLUS_B);
         if (openStatus) {
             if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) {
                 return embedDBInitDataFromFileWithRecordLevelConsistency(state);
@@ -307,10 +306,10 @@ int8_t embedDBInitData(embedDBState *state) {
                 return embedDBInitDataFromFile(state);
             }
         }
-    } else {
-        openStatus = state->fileInterface->open(state->dataFile, EMBEDDB_FILE_MODE_W_PLUS_B);
     }
 
+    /* There is no data to recover, so start with an empty file */
+    int8_t openStatus = state->fileInterface->open(state->dataFile, EMBEDDB_FILE_MODE_W_PLUS_B);
     if (!openStatus) {
 #ifdef PRINT_ERRORS
         printf("Error: Can't open data file!\n");
@@ -643,7 +642,8 @@ int8_t embedDBInitIndex(embedDBState *state) {
         return -1;
     }
 
-    if (!EMBEDDB_RESETING_DATA(state->parameters)) {
+    /* An index that was left behind by other data must not be used, so only recover it if there is data */
+    if (!EMBEDDB_RESETING_DATA(state->parameters) && state->nextDataPageId > 0) {
         int8_t openStatus = state->fileInterface->open(state->indexFile, EMBEDDB_FILE_MODE_R_PLUS_B);
         if (openStatus) {
             return embedDBInitIndexFromFile(state);
-- 
2.43.0


From 3007019be11c7d24ff53334516aac310135bc329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:36 +0000
Subject: [PATCH 06/45] fix: lay out the page header for every combination of
 features

The bitmap had no space in the header with EMBEDDB_USE_BMAP but without an
index, and the min/max area was placed at a fixed offset that is only right
for 8-byte bitmaps, so both overwrote records. Record and header sizes did
not fit in their types for large records.
---
 lib/Distribution/embedDB.c | 20 +++++++++++---------
 lib/Distribution/embedDB.h | 15 +++++++--------
 src/embedDB/embedDB.c      | 20 +++++++++++---------
 src/embedDB/embedDB.h      | 15 +++++++--------
 4 files changed, 36 insertions(+), 34 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index aa8572b..186c8a0 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -518,10 +518,10 @@ void initBufferPage(embedDBState *state, int pageNum) {
         ((int8_t *)buf)[i] = 0;
     }
 
-    if (pageNum != EMBEDDB_VAR_WRITE_BUFFER(state->parameters)) {
+    if (pageNum == EMBEDDB_DATA_WRITE_BUFFER && EMBEDDB_USING_MAX_MIN(state->parameters)) {
         /* Initialize header key min. Max and sum is already set to zero by the
          * for-loop above */
-        void *min = EMBEDDB_GET_MIN_KEY(buf);
+        void *min = EMBEDDB_GET_MIN_KEY(buf, state);
         /* Initialize min to all 1s */
         for (i = 0; i < state->keySize; i++) {
             ((int8_t *)min)[i] = 1;
@@ -608,9 +608,11 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
 #endif
             return -1;
         }
-        state->headerSize += state->bitmapSize;
     }
 
+    if (EMBEDDB_USING_INDEX(state->parameters) || EMBEDDB_USING_BMAP(state->parameters))
+        state->headerSize += state->bitmapSize;
+
     if (EMBEDDB_USING_MAX_MIN(state->parameters))
         state->headerSize += state->keySize * 2 + state->dataSize * 2;
 
@@ -759,7 +761,7 @@ int8_t embedDBInitDataFromFile(embedDBState *state) {
 
     /* this handles the case where the first page may have been erased, so has junk data and we actually need to start from the second page */
     uint32_t i = 0;
-    int8_t numRecords = 0;
+    count_t numRecords = 0;
     while (moreToRead && i < 2) {
         memcpy(&logicalPageId, buffer, sizeof(id_t));
         validData = logicalPageId % state->numDataPages == count;
@@ -859,7 +861,7 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
      * They may be either an erased page or pages for record-level consistency.
      */
     uint32_t i = 0;
-    int8_t numRecords = 0;
+    count_t numRecords = 0;
     while (moreToRead && i < 4) {
         memcpy(&logicalPageId, buffer, sizeof(id_t));
         validData = logicalPageId % state->numDataPages == count;
@@ -1532,7 +1534,7 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
                 memcpy(ptr, data, state->dataSize);
         } else {
             /* First record inserted */
-            ptr = EMBEDDB_GET_MIN_KEY(state->buffer);
+            ptr = EMBEDDB_GET_MIN_KEY(state->buffer, state);
             memcpy(ptr, key, state->keySize);
             ptr = EMBEDDB_GET_MAX_KEY(state->buffer, state);
             memcpy(ptr, key, state->keySize);
@@ -1881,7 +1883,7 @@ int8_t splineSearch(embedDBState *state, void *buffer, void *key) {
  * @param	data	Pre-allocated memory to copy data for record
  * @return	Return non-negative integer representing offset if success. Non-zero value if error.
  */
-int8_t searchBuffer(embedDBState *state, void *buffer, void *key, void *data) {
+int16_t searchBuffer(embedDBState *state, void *buffer, void *key, void *data) {
     // return -1 if there is nothing in the buffer
     if (EMBEDDB_GET_COUNT(buffer) == 0) {
         return NO_RECORD_FOUND;
@@ -1910,7 +1912,7 @@ int8_t searchBuffer(embedDBState *state, void *buffer, void *key, void *data) {
 int8_t embedDBGet(embedDBState *state, void *key, void *data) {
     void *outputBuffer = state->buffer;
     if (state->nextDataPageId == 0) {
-        int8_t success = searchBuffer(state, outputBuffer, key, data);
+        int16_t success = searchBuffer(state, outputBuffer, key, data);
         if (success != NO_RECORD_FOUND) {
             return 0;
         }
@@ -1988,7 +1990,7 @@ int8_t embedDBGetVar(embedDBState *state, void *key, void *data, embedDBVarDataS
     void *outputBuffer = (int8_t *)state->buffer;
 
     // search output buffer for record, mem copy fixed record into data
-    int8_t recordNum = searchBuffer(state, outputBuffer, key, data);
+    int16_t recordNum = searchBuffer(state, outputBuffer, key, data);
 
     // if there are records found in the output buffer
     if (recordNum != NO_RECORD_FOUND) {
diff --git a/lib/Distribution/embedDB.h b/lib/Distribution/embedDB.h
index 194eb88..6d50027 100644
--- a/lib/Distribution/embedDB.h
+++ b/lib/Distribution/embedDB.h
@@ -256,8 +256,6 @@ typedef uint16_t count_t;
 /* Offsets with header */
 #define EMBEDDB_COUNT_OFFSET 4
 #define EMBEDDB_BITMAP_OFFSET 6
-// #define EMBEDDB_MIN_OFFSET		8
-#define EMBEDDB_MIN_OFFSET 14
 #define EMBEDDB_IDX_HEADER_SIZE 16
 
 #define EMBEDDB_NO_VAR_DATA UINT32_MAX
@@ -272,11 +270,12 @@ typedef uint16_t count_t;
 
 #define EMBEDDB_GET_BITMAP(x) ((void *)((int8_t *)x + EMBEDDB_BITMAP_OFFSET))
 
-#define EMBEDDB_GET_MIN_KEY(x) ((void *)((int8_t *)x + EMBEDDB_MIN_OFFSET))
-#define EMBEDDB_GET_MAX_KEY(x, y) ((void *)((int8_t *)x + EMBEDDB_MIN_OFFSET + y->keySize))
+/* If EMBEDDB_USE_MAX_MIN is set, the min and max key and the min and max data are the last part of the header (after the bitmap if there is one) */
+#define EMBEDDB_GET_MIN_KEY(x, y) ((void *)((int8_t *)x + y->headerSize - y->dataSize * 2 - y->keySize * 2))
+#define EMBEDDB_GET_MAX_KEY(x, y) ((void *)((int8_t *)x + y->headerSize - y->dataSize * 2 - y->keySize))
 
-#define EMBEDDB_GET_MIN_DATA(x, y) ((void *)((int8_t *)x + EMBEDDB_MIN_OFFSET + y->keySize * 2))
-#define EMBEDDB_GET_MAX_DATA(x, y) ((void *)((int8_t *)x + EMBEDDB_MIN_OFFSET + y->keySize * 2 + y->dataSize))
+#define EMBEDDB_GET_MIN_DATA(x, y) ((void *)((int8_t *)x + y->headerSize - y->dataSize * 2))
+#define EMBEDDB_GET_MAX_DATA(x, y) ((void *)((int8_t *)x + y->headerSize - y->dataSize))
 
 #define EMBEDDB_DATA_WRITE_BUFFER 0
 #define EMBEDDB_DATA_READ_BUFFER 1
@@ -405,8 +404,8 @@ typedef struct {
     int16_t parameters;                                                   /* Parameter flags for indexing and bitmaps */
     int8_t keySize;                                                       /* Size of key in bytes (fixed-size records) */
     int8_t dataSize;                                                      /* Size of data in bytes (fixed-size records). Do not include space for variable size records if you are using them. */
-    int8_t recordSize;                                                    /* Size of record in bytes (fixed-size records) */
-    int8_t headerSize;                                                    /* Size of header in bytes (calculated during init()) */
+    int16_t recordSize;                                                   /* Size of record in bytes (fixed-size records) */
+    int16_t headerSize;                                                   /* Size of header in bytes (calculated during init()) */
     int8_t variableDataHeaderSize;                                        /* Size of page header in variable data files (calculated during init()) */
     int8_t bitmapSize;                                                    /* Size of bitmap in bytes */
     count_t maxRecordsPerPage;                                            /* Maximum records per page */
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index c6ea37b..f481caf 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -94,10 +94,10 @@ void initBufferPage(embedDBState *state, int pageNum) {
         ((int8_t *)buf)[i] = 0;
     }
 
-    if (pageNum != EMBEDDB_VAR_WRITE_BUFFER(state->parameters)) {
+    if (pageNum == EMBEDDB_DATA_WRITE_BUFFER && EMBEDDB_USING_MAX_MIN(state->parameters)) {
         /* Initialize header key min. Max and sum is already set to zero by the
          * for-loop above */
-        void *min = EMBEDDB_GET_MIN_KEY(buf);
+        void *min = EMBEDDB_GET_MIN_KEY(buf, state);
         /* Initialize min to all 1s */
         for (i = 0; i < state->keySize; i++) {
             ((int8_t *)min)[i] = 1;
@@ -184,9 +184,11 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
 #endif
             return -1;
         }
-        state->headerSize += state->bitmapSize;
     }
 
+    if (EMBEDDB_USING_INDEX(state->parameters) || EMBEDDB_USING_BMAP(state->parameters))
+        state->headerSize += state->bitmapSize;
+
     if (EMBEDDB_USING_MAX_MIN(state->parameters))
         state->headerSize += state->keySize * 2 + state->dataSize * 2;
 
@@ -335,7 +337,7 @@ int8_t embedDBInitDataFromFile(embedDBState *state) {
 
     /* this handles the case where the first page may have been erased, so has junk data and we actually need to start from the second page */
     uint32_t i = 0;
-    int8_t numRecords = 0;
+    count_t numRecords = 0;
     while (moreToRead && i < 2) {
         memcpy(&logicalPageId, buffer, sizeof(id_t));
         validData = logicalPageId % state->numDataPages == count;
@@ -435,7 +437,7 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
      * They may be either an erased page or pages for record-level consistency.
      */
     uint32_t i = 0;
-    int8_t numRecords = 0;
+    count_t numRecords = 0;
     while (moreToRead && i < 4) {
         memcpy(&logicalPageId, buffer, sizeof(id_t));
         validData = logicalPageId % state->numDataPages == count;
@@ -1108,7 +1110,7 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
                 memcpy(ptr, data, state->dataSize);
         } else {
             /* First record inserted */
-            ptr = EMBEDDB_GET_MIN_KEY(state->buffer);
+            ptr = EMBEDDB_GET_MIN_KEY(state->buffer, state);
             memcpy(ptr, key, state->keySize);
             ptr = EMBEDDB_GET_MAX_KEY(state->buffer, state);
             memcpy(ptr, key, state->keySize);
@@ -1457,7 +1459,7 @@ int8_t splineSearch(embedDBState *state, void *buffer, void *key) {
  * @param	data	Pre-allocated memory to copy data for record
  * @return	Return non-negative integer representing offset if success. Non-zero value if error.
  */
-int8_t searchBuffer(embedDBState *state, void *buffer, void *key, void *data) {
+int16_t searchBuffer(embedDBState *state, void *buffer, void *key, void *data) {
     // return -1 if there is nothing in the buffer
     if (EMBEDDB_GET_COUNT(buffer) == 0) {
         return NO_RECORD_FOUND;
@@ -1486,7 +1488,7 @@ int8_t searchBuffer(embedDBState *state, void *buffer, void *key, void *data) {
 int8_t embedDBGet(embedDBState *state, void *key, void *data) {
     void *outputBuffer = state->buffer;
     if (state->nextDataPageId == 0) {
-        int8_t success = searchBuffer(state, outputBuffer, key, data);
+        int16_t success = searchBuffer(state, outputBuffer, key, data);
         if (success != NO_RECORD_FOUND) {
             return 0;
         }
@@ -1564,7 +1566,7 @@ int8_t embedDBGetVar(embedDBState *state, void *key, void *data, embedDBVarDataS
     void *outputBuffer = (int8_t *)state->buffer;
 
     // search output buffer for record, mem copy fixed record into data
-    int8_t recordNum = searchBuffer(state, outputBuffer, key, data);
+    int16_t recordNum = searchBuffer(state, outputBuffer, key, data);
 
     // if there are records found in the output buffer
     if (recordNum != NO_RECORD_FOUND) {
diff --git a/src/embedDB/embedDB.h b/src/embedDB/embedDB.h
index 5d9521b..33173b6 100644
--- a/src/embedDB/embedDB.h
+++ b/src/embedDB/embedDB.h
@@ -76,8 +76,6 @@ typedef uint16_t count_t;
 /* Offsets with header */
 #define EMBEDDB_COUNT_OFFSET 4
 #define EMBEDDB_BITMAP_OFFSET 6
-// #define EMBEDDB_MIN_OFFSET		8
-#define EMBEDDB_MIN_OFFSET 14
 #define EMBEDDB_IDX_HEADER_SIZE 16
 
 #define EMBEDDB_NO_VAR_DATA UINT32_MAX
@@ -92,11 +90,12 @@ typedef uint16_t count_t;
 
 #define EMBEDDB_GET_BITMAP(x) ((void *)((int8_t *)x + EMBEDDB_BITMAP_OFFSET))
 
-#define EMBEDDB_GET_MIN_KEY(x) ((void *)((int8_t *)x + EMBEDDB_MIN_OFFSET))
-#define EMBEDDB_GET_MAX_KEY(x, y) ((void *)((int8_t *)x + EMBEDDB_MIN_OFFSET + y->keySize))
+/* If EMBEDDB_USE_MAX_MIN is set, the min and max key and the min and max data are the last part of the header (after the bitmap if there is one) */
+#define EMBEDDB_GET_MIN_KEY(x, y) ((void *)((int8_t *)x + y->headerSize - y->dataSize * 2 - y->keySize * 2))
+#define EMBEDDB_GET_MAX_KEY(x, y) ((void *)((int8_t *)x + y->headerSize - y->dataSize * 2 - y->keySize))
 
-#define EMBEDDB_GET_MIN_DATA(x, y) ((void *)((int8_t *)x + EMBEDDB_MIN_OFFSET + y->keySize * 2))
-#define EMBEDDB_GET_MAX_DATA(x, y) ((void *)((int8_t *)x + EMBEDDB_MIN_OFFSET + y->keySize * 2 + y->dataSize))
+#define EMBEDDB_GET_MIN_DATA(x, y) ((void *)((int8_t *)x + y->headerSize - y->dataSize * 2))
+#define EMBEDDB_GET_MAX_DATA(x, y) ((void *)((int8_t *)x + y->headerSize - y->dataSize))
 
 #define EMBEDDB_DATA_WRITE_BUFFER 0
 #define EMBEDDB_DATA_READ_BUFFER 1
@@ -225,8 +224,8 @@ typedef struct {
     int16_t parameters;                                                   /* Parameter flags for indexing and bitmaps */
     int8_t keySize;                                                       /* Size of key in bytes (fixed-size records) */
     int8_t dataSize;                                                      /* Size of data in bytes (fixed-size records). Do not include space for variable size records if you are using them. */
-    int8_t recordSize;                                                    /* Size of record in bytes (fixed-size records) */
-    int8_t headerSize;                                                    /* Size of header in bytes (calculated during init()) */
+    int16_t recordSize;                                                   /* Size of record in bytes (fixed-size records) */
+    int16_t headerSize;                                                   /* Size of header in bytes (calculated during init()) */
     int8_t variableDataHeaderSize;                                        /* Size of page header in variable data files (calculated during init()) */
     int8_t bitmapSize;                                                    /* Size of bitmap in bytes */
     count_t maxRecordsPerPage;                                            /* Maximum records per page */
-- 
2.43.0


From f6e67b023c939844a8ce8a20a771266adbf57405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:30 +0000
Subject: [PATCH 07/45] fix: write variable data before its record, report
 failed writes, move record-level consistency blocks on flush

embedDBPutVar ignored failures of the page write it triggers, checked the key
order only after writing variable data, and embedDBFlush ignored failed
writes and did not move the temporary blocks at the end of an erase block.
---
 lib/Distribution/embedDB.c | 305 +++++++++++++++++++++++--------------
 lib/Distribution/embedDB.h |   1 -
 src/embedDB/embedDB.c      | 305 +++++++++++++++++++++++--------------
 src/embedDB/embedDB.h      |   1 -
 4 files changed, 380 insertions(+), 232 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 186c8a0..d1adcf3 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -481,6 +481,10 @@ int8_t embedDBInitIndexFromFile(embedDBState *state);
 int8_t embedDBInitVarData(embedDBState *state);
 int8_t embedDBInitVarDataFromFile(embedDBState *state);
 int8_t shiftRecordLevelConsistencyBlocks(embedDBState *state);
+int8_t checkKeyOrder(embedDBState *state, void *key);
+int8_t writeBufferedRecords(embedDBState *state);
+int8_t writeBufferedVarData(embedDBState *state);
+int8_t putRecord(embedDBState *state, void *key, void *data, uint32_t varDataLocation);
 void embedDBInitSplineFromFile(embedDBState *state);
 int32_t getMaxError(embedDBState *state, void *buffer);
 void updateMaxiumError(embedDBState *state, void *buffer);
@@ -1429,15 +1433,12 @@ void indexPage(embedDBState *state, uint32_t pageNumber) {
 }
 
 /**
- * @brief	Puts a given key, data pair into structure.
+ * @brief	Checks that a key is larger than every key inserted before it.
  * @param	state	embedDB algorithm state structure
  * @param	key		Key for record
- * @param	data	Data for record
- * @return	Return 0 if success. Non-zero value if error.
+ * @return	Return 0 if it is, 1 if it is not, and -1 if the previous key could not be read.
  */
-int8_t embedDBPut(embedDBState *state, void *key, void *data) {
-    /* Copy record into block */
-
+int8_t checkKeyOrder(embedDBState *state, void *key) {
     count_t count = EMBEDDB_GET_COUNT(state->buffer);
     if (state->nextDataPageId > 0 || count > 0) {
         void *previousKey = NULL;
@@ -1460,58 +1461,103 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
             return 1;
         }
     }
+    return 0;
+}
 
-    /* Write current page if full */
-    bool wrotePage = false;
-    if (count >= state->maxRecordsPerPage) {
-        // As the first buffer is the data write buffer, no manipulation is required
-        id_t pageNum = writePage(state, state->buffer);
-
-        indexPage(state, pageNum);
-
-        /* Save record in index file */
-        if (state->indexFile != NULL) {
-            void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_INDEX_WRITE_BUFFER);
-            count_t idxcount = EMBEDDB_GET_COUNT(buf);
-            if (idxcount >= state->maxIdxRecordsPerPage) {
-                /* Save index page */
-                writeIndexPage(state, buf);
-
-                idxcount = 0;
-                initBufferPage(state, EMBEDDB_INDEX_WRITE_BUFFER);
-
-                /* Add page id to minimum value spot in page */
-                id_t *ptr = (id_t *)((int8_t *)buf + 8);
-                *ptr = pageNum;
-            }
+/**
+ * @brief	Writes the records in the write buffer to storage as one data page and empties the write buffer.
+ * 			If it fails before the page is written, nothing changes and it can be tried again.
+ * @param	state	embedDB algorithm state structure
+ * @return	Return 0 if success. Non-zero value if error.
+ */
+int8_t writeBufferedRecords(embedDBState *state) {
+    /* The variable data of a record has to be on storage before the record is */
+    if (EMBEDDB_USING_VDATA(state->parameters) && embedDBFlushVar(state) != 0) {
+        return -1;
+    }
 
-            EMBEDDB_INC_COUNT(buf);
+    /* Make sure there is space for one more entry in the index page */
+    void *idxBuf = NULL;
+    if (state->indexFile != NULL) {
+        idxBuf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_INDEX_WRITE_BUFFER);
+        if (EMBEDDB_GET_COUNT(idxBuf) >= state->maxIdxRecordsPerPage) {
+            /* Save index page */
+            if (writeIndexPage(state, idxBuf) == (id_t)-1) {
+                return -1;
+            }
+            initBufferPage(state, EMBEDDB_INDEX_WRITE_BUFFER);
 
-            /* Copy record onto index page */
-            void *bm = EMBEDDB_GET_BITMAP(state->buffer);
-            memcpy((void *)((int8_t *)buf + EMBEDDB_IDX_HEADER_SIZE + state->bitmapSize * idxcount), bm, state->bitmapSize);
+            /* Add page id to minimum value spot in page */
+            memcpy((int8_t *)idxBuf + 8, &state->nextDataPageId, sizeof(id_t));
         }
+    }
+
+    // As the first buffer is the data write buffer, no manipulation is required
+    id_t pageNum = writePage(state, state->buffer);
+    if (pageNum == (id_t)-1) {
+        return -1;
+    }
 
-        updateMaxiumError(state, state->buffer);
+    indexPage(state, pageNum);
 
-        count = 0;
-        initBufferPage(state, 0);
-        wrotePage = true;
+    /* Save record in index file */
+    if (idxBuf != NULL) {
+        count_t idxcount = EMBEDDB_GET_COUNT(idxBuf);
+        EMBEDDB_INC_COUNT(idxBuf);
+
+        /* Copy record onto index page */
+        void *bm = EMBEDDB_GET_BITMAP(state->buffer);
+        memcpy((void *)((int8_t *)idxBuf + EMBEDDB_IDX_HEADER_SIZE + state->bitmapSize * idxcount), bm, state->bitmapSize);
+    }
+
+    updateMaxiumError(state, state->buffer);
+
+    initBufferPage(state, EMBEDDB_DATA_WRITE_BUFFER);
+    return 0;
+}
+
+/**
+ * @brief	Puts a given key, data pair into structure.
+ * @param	state	embedDB algorithm state structure
+ * @param	key		Key for record
+ * @param	data	Data for record
+ * @return	Return 0 if success. Non-zero value if error.
+ */
+int8_t embedDBPut(embedDBState *state, void *key, void *data) {
+    int8_t orderResult = checkKeyOrder(state, key);
+    if (orderResult != 0) {
+        return orderResult;
+    }
+    return putRecord(state, key, data, EMBEDDB_NO_VAR_DATA);
+}
+
+/**
+ * @brief	Puts a record, whose key is known to be in order, into the write buffer.
+ * @param	state			embedDB algorithm state structure
+ * @param	key				Key for record
+ * @param	data			Data for record
+ * @param	varDataLocation	Location of the variable data of the record or EMBEDDB_NO_VAR_DATA. Only used with variable data.
+ * @return	Return 0 if success. Non-zero value if error.
+ */
+int8_t putRecord(embedDBState *state, void *key, void *data, uint32_t varDataLocation) {
+    /* Write current page if full */
+    if (EMBEDDB_GET_COUNT(state->buffer) >= state->maxRecordsPerPage && writeBufferedRecords(state) != 0) {
+        return -1;
+    }
+
+    /* Need to move record level consistency blocks if the last page of a block was written */
+    if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters) && shiftRecordLevelConsistencyBlocks(state) != 0) {
+        return -1;
     }
 
     /* Copy record onto page */
+    count_t count = EMBEDDB_GET_COUNT(state->buffer);
     memcpy((int8_t *)state->buffer + (state->recordSize * count) + state->headerSize, key, state->keySize);
     memcpy((int8_t *)state->buffer + (state->recordSize * count) + state->headerSize + state->keySize, data, state->dataSize);
 
     /* Copy variable data offset if using variable data*/
     if (EMBEDDB_USING_VDATA(state->parameters)) {
-        uint32_t dataLocation;
-        if (state->recordHasVarData) {
-            dataLocation = state->currentVarLoc % (state->numVarPages * state->pageSize);
-        } else {
-            dataLocation = EMBEDDB_NO_VAR_DATA;
-        }
-        memcpy((int8_t *)state->buffer + (state->recordSize * count) + state->headerSize + state->keySize + state->dataSize, &dataLocation, sizeof(uint32_t));
+        memcpy((int8_t *)state->buffer + (state->recordSize * count) + state->headerSize + state->keySize + state->dataSize, &varDataLocation, sizeof(uint32_t));
     }
 
     /* Update count */
@@ -1554,18 +1600,28 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
 
     /* If using record level consistency, we need to immediately write the updated page to storage */
     if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) {
-        /* Need to move record level consistency pointers if on a block boundary */
-        if (wrotePage && state->nextDataPageId % state->eraseSizeInPages == 0) {
-            /* move record-level consistency blocks */
-            shiftRecordLevelConsistencyBlocks(state);
+        int8_t writeResult = writeTemporaryPage(state, state->buffer);
+        if (writeResult != 0) {
+            /* The record is not on storage, so take it back out of the write buffer */
+            memcpy((int8_t *)state->buffer + EMBEDDB_COUNT_OFFSET, &count, sizeof(count_t));
+            return writeResult;
         }
-        return writeTemporaryPage(state, state->buffer);
     }
 
     return 0;
 }
 
+/**
+ * @brief	Moves the record-level consistency blocks to the block after the one that is written next, unless they already are there.
+ * @param	state	embedDB algorithm state structure
+ * @return	Return 0 if success. Non-zero value if error.
+ */
 int8_t shiftRecordLevelConsistencyBlocks(embedDBState *state) {
+    /* only needed when we are on a block boundary and the blocks have not been moved yet */
+    if (state->nextDataPageId % state->eraseSizeInPages != 0 || state->rlcPhysicalStartingPage != state->nextDataPageId % state->numDataPages) {
+        return 0;
+    }
+
     /* erase the record-level consistency blocks */
 
     /* TODO: Likely an optimisation here where we don't always need to erase the second block, but that will make this algorithm more complicated and the savings could be minimal */
@@ -1635,37 +1691,30 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
         return -1;
     }
 
-    // Insert their data
-
-    /*
-     * Check that there is enough space remaining in this page to start the insert of the variable
-     * data here and if the data page will be written in embedDBGet
-     */
-    void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
-    if (state->currentVarLoc % state->pageSize > state->pageSize - 4 || (!(EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) && EMBEDDB_GET_COUNT(state->buffer) >= state->maxRecordsPerPage)) {
-        writeVariablePage(state, buf);
-        initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
-        // Move data writing location to the beginning of the next page, leaving the room for the header
-        state->currentVarLoc += state->pageSize - state->currentVarLoc % state->pageSize + state->variableDataHeaderSize;
+    int8_t orderResult = checkKeyOrder(state, key);
+    if (orderResult != 0) {
+        return orderResult;
     }
 
     if (variableData == NULL) {
         // Var data enabled, but not provided
-        state->recordHasVarData = 0;
-        return embedDBPut(state, key, data);
+        return putRecord(state, key, data, EMBEDDB_NO_VAR_DATA);
     }
 
-    // Perform the regular insert
-    state->recordHasVarData = 1;
-    int8_t r;
-    if ((r = embedDBPut(state, key, data)) != 0) {
-        return r;
+    // Write current page if full, so that its variable data and the variable data of this record are not on the same page
+    if (EMBEDDB_GET_COUNT(state->buffer) >= state->maxRecordsPerPage && writeBufferedRecords(state) != 0) {
+        return -1;
     }
 
-    if (state->minVarRecordId == UINT64_MAX) {
-        memcpy(&state->minVarRecordId, key, state->keySize);
+    // Check that there is enough space remaining in this page to start the insert of the variable data here
+    void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
+    if ((state->currentVarLoc % state->pageSize == 0 || state->currentVarLoc % state->pageSize > state->pageSize - 4) && writeBufferedVarData(state) != 0) {
+        return -1;
     }
 
+    // The record points at the variable data, so that has to be written first
+    uint32_t varDataLocation = state->currentVarLoc % (state->numVarPages * state->pageSize);
+
     // Update the header to include the maximum key value stored on this page
     memcpy((int8_t *)buf + sizeof(id_t), key, state->keySize);
 
@@ -1675,15 +1724,15 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
 
     // Check if we need to write after doing that
     if (state->currentVarLoc % state->pageSize == 0) {
-        writeVariablePage(state, buf);
-        initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
+        if (writeBufferedVarData(state) != 0) {
+            return -1;
+        }
 
         // Update the header to include the maximum key value stored on this page
         memcpy((int8_t *)buf + sizeof(id_t), key, state->keySize);
-        state->currentVarLoc += state->variableDataHeaderSize;
     }
 
-    int amtWritten = 0;
+    uint32_t amtWritten = 0;
     while (length > 0) {
         // Copy data into the buffer. Write the min of the space left in this page and the remaining length of the data
         uint16_t amtToWrite = min(state->pageSize - state->currentVarLoc % state->pageSize, length);
@@ -1694,22 +1743,51 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
 
         // If we need to write the buffer to file
         if (state->currentVarLoc % state->pageSize == 0) {
-            writeVariablePage(state, buf);
-            initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
+            if (writeBufferedVarData(state) != 0) {
+                return -1;
+            }
 
             // Update the header to include the maximum key value stored on this page and account for page number
             memcpy((int8_t *)buf + sizeof(id_t), key, state->keySize);
-            state->currentVarLoc += state->variableDataHeaderSize;
         }
     }
 
-    if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) {
-        embedDBFlushVar(state);
+    if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters) && embedDBFlushVar(state) != 0) {
+        return -1;
+    }
+
+    // Perform the regular insert
+    int8_t putResult = putRecord(state, key, data, varDataLocation);
+    if (putResult != 0) {
+        return putResult;
+    }
+
+    if (state->minVarRecordId == UINT64_MAX) {
+        state->minVarRecordId = 0;
+        memcpy(&state->minVarRecordId, key, state->keySize);
     }
 
     return 0;
 }
 
+/**
+ * @brief	Writes the variable data write buffer to storage and moves on to the start of the next page.
+ * 			If it fails, nothing changes and it can be tried again.
+ * @param	state	embedDB algorithm state structure
+ * @return	Return 0 if success. Non-zero value if error.
+ */
+int8_t writeBufferedVarData(embedDBState *state) {
+    id_t writeResult = writeVariablePage(state, (int8_t *)state->buffer + EMBEDDB_VAR_WRITE_BUFFER(state->parameters) * state->pageSize);
+    if (writeResult == (id_t)-1) {
+        return -1;
+    }
+    // init new buffer
+    initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
+    // Move data writing location to the beginning of the next page, leaving the room for the header
+    state->currentVarLoc = (state->nextVarPageId % state->numVarPages) * state->pageSize + state->variableDataHeaderSize;
+    return 0;
+}
+
 /**
  * @brief	Given a key, estimates the location of the key within the node.
  * @param	state	embedDB algorithm state structure
@@ -2084,21 +2162,19 @@ int8_t embedDBFlushVar(embedDBState *state) {
     }
 
     // only flush variable buffer
-    id_t writeResult = writeVariablePage(state, (int8_t *)state->buffer + EMBEDDB_VAR_WRITE_BUFFER(state->parameters) * state->pageSize);
-    if (writeResult == -1) {
+    if (writeBufferedVarData(state) != 0) {
 #ifdef PRINT_ERRORS
         printf("Failed to write variable data page during embedDBFlushVar.");
 #endif
         return -1;
     }
 
-    state->fileInterface->flush(state->varFile);
-    // init new buffer
-    initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
-    // determine how many bytes are left
-    int temp = state->pageSize - (state->currentVarLoc % state->pageSize);
-    // create new offset
-    state->currentVarLoc += temp + state->variableDataHeaderSize;
+    if (state->fileInterface->flush(state->varFile) == 0) {
+#ifdef PRINT_ERRORS
+        printf("Failed to flush the variable data file during embedDBFlushVar.");
+#endif
+        return -1;
+    }
     return 0;
 }
 
@@ -2113,54 +2189,50 @@ int8_t embedDBFlush(embedDBState *state) {
     if (EMBEDDB_GET_COUNT(buffer) < 1)
         return 0;
 
-    id_t pageNum = writePage(state, buffer);
-    if (pageNum == -1) {
+    // This also writes the variable data page
+    if (writeBufferedRecords(state) != 0) {
 #ifdef PRINT_ERRORS
         printf("Failed to write page during embedDBFlush.");
 #endif
         return -1;
     }
 
-    state->fileInterface->flush(state->dataFile);
+    if (state->fileInterface->flush(state->dataFile) == 0) {
+#ifdef PRINT_ERRORS
+        printf("Failed to flush the data file during embedDBFlush.");
+#endif
+        return -1;
+    }
 
-    indexPage(state, pageNum);
+    /* Need to move record level consistency blocks if the last page of a block was written */
+    if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters) && shiftRecordLevelConsistencyBlocks(state) != 0) {
+        return -1;
+    }
 
     if (EMBEDDB_USING_INDEX(state->parameters)) {
         void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_INDEX_WRITE_BUFFER);
-        count_t idxcount = EMBEDDB_GET_COUNT(buf);
-        EMBEDDB_INC_COUNT(buf);
-
-        /* Copy record onto index page */
-        void *bm = EMBEDDB_GET_BITMAP(state->buffer);
-        memcpy((void *)((int8_t *)buf + EMBEDDB_IDX_HEADER_SIZE + state->bitmapSize * idxcount), bm, state->bitmapSize);
-
         id_t writeResult = writeIndexPage(state, buf);
-        if (writeResult == -1) {
+        if (writeResult == (id_t)-1) {
 #ifdef PRINT_ERRORS
             printf("Failed to write index page during embedDBFlush.");
 #endif
             return -1;
         }
 
-        state->fileInterface->flush(state->indexFile);
-
         /* Reinitialize buffer */
         initBufferPage(state, EMBEDDB_INDEX_WRITE_BUFFER);
-    }
 
-    /* Reinitialize buffer */
-    initBufferPage(state, EMBEDDB_DATA_WRITE_BUFFER);
+        /* Add page id to minimum value spot in page */
+        memcpy((int8_t *)buf + 8, &state->nextDataPageId, sizeof(id_t));
 
-    // Flush var data page
-    if (EMBEDDB_USING_VDATA(state->parameters)) {
-        int8_t varFlushResult = embedDBFlushVar(state);
-        if (varFlushResult != 0) {
+        if (state->fileInterface->flush(state->indexFile) == 0) {
 #ifdef PRINT_ERRORS
-            printf("Failed to flush variable data page");
+            printf("Failed to flush the index file during embedDBFlush.");
 #endif
             return -1;
         }
     }
+
     return 0;
 }
 
@@ -2440,7 +2512,7 @@ id_t writePage(embedDBState *state, void *buffer) {
         return -1;
 
     /* Always writes to next page number. Returned to user. */
-    id_t pageNum = state->nextDataPageId++;
+    id_t pageNum = state->nextDataPageId;
     id_t physicalPageNum = pageNum % state->numDataPages;
 
     /* Setup page number in header */
@@ -2478,6 +2550,7 @@ id_t writePage(embedDBState *state, void *buffer) {
         return -1;
     }
 
+    state->nextDataPageId++;
     state->numAvailDataPages--;
     state->numWrites++;
 
@@ -2520,21 +2593,22 @@ int8_t writeTemporaryPage(embedDBState *state, void *buffer) {
         if (!eraseSuccess) {
 #ifdef PRINT_ERRORS
             printf("Failed to erase block starting at physical page %i in the data file.", state->nextRLCPhysicalPageLocation);
-            return -2;
 #endif
+            return -2;
         }
         invalidateBufferedPages(&state->bufferedPageId, eraseStartingPage, eraseEndingPage);
     }
 
     /* Write temporary page to storage */
     invalidateBufferedPages(&state->bufferedPageId, state->nextRLCPhysicalPageLocation, state->nextRLCPhysicalPageLocation + 1);
-    int8_t writeSuccess = state->fileInterface->write(buffer, state->nextRLCPhysicalPageLocation++, state->pageSize, state->dataFile);
+    int8_t writeSuccess = state->fileInterface->write(buffer, state->nextRLCPhysicalPageLocation, state->pageSize, state->dataFile);
     if (!writeSuccess) {
 #ifdef PRINT_ERRORS
-        printf("Failed to write temporary page for record-level-consistency: Logical Page Number %i - Physical Page (%i)\n", state->nextDataPageId, state->nextRLCPhysicalPageLocation - 1);
+        printf("Failed to write temporary page for record-level-consistency: Logical Page Number %i - Physical Page (%i)\n", state->nextDataPageId, state->nextRLCPhysicalPageLocation);
 #endif
         return -1;
     }
+    state->nextRLCPhysicalPageLocation++;
 
     return 0;
 }
@@ -2577,7 +2651,7 @@ id_t writeIndexPage(embedDBState *state, void *buffer) {
         return -1;
 
     /* Always writes to next page number. Returned to user. */
-    id_t pageNum = state->nextIdxPageId++;
+    id_t pageNum = state->nextIdxPageId;
     id_t physicalPageNumber = pageNum % state->numIndexPages;
 
     /* Setup page number in header */
@@ -2607,6 +2681,7 @@ id_t writeIndexPage(embedDBState *state, void *buffer) {
         return -1;
     }
 
+    state->nextIdxPageId++;
     state->numAvailIndexPages--;
     state->numIdxWrites++;
 
diff --git a/lib/Distribution/embedDB.h b/lib/Distribution/embedDB.h
index 6d50027..31134f1 100644
--- a/lib/Distribution/embedDB.h
+++ b/lib/Distribution/embedDB.h
@@ -426,7 +426,6 @@ typedef struct {
     id_t bufferedPageId;                                                  /* Page id currently in read buffer */
     id_t bufferedIndexPageId;                                             /* Index page id currently in index read buffer */
     id_t bufferedVarPage;                                                 /* Variable page id currently in variable read buffer */
-    uint8_t recordHasVarData;                                             /* Internal flag to signal that the record currently being written has var data */
 } embedDBState;
 
 typedef struct {
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index f481caf..d78974b 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -57,6 +57,10 @@ int8_t embedDBInitIndexFromFile(embedDBState *state);
 int8_t embedDBInitVarData(embedDBState *state);
 int8_t embedDBInitVarDataFromFile(embedDBState *state);
 int8_t shiftRecordLevelConsistencyBlocks(embedDBState *state);
+int8_t checkKeyOrder(embedDBState *state, void *key);
+int8_t writeBufferedRecords(embedDBState *state);
+int8_t writeBufferedVarData(embedDBState *state);
+int8_t putRecord(embedDBState *state, void *key, void *data, uint32_t varDataLocation);
 void embedDBInitSplineFromFile(embedDBState *state);
 int32_t getMaxError(embedDBState *state, void *buffer);
 void updateMaxiumError(embedDBState *state, void *buffer);
@@ -1005,15 +1009,12 @@ void indexPage(embedDBState *state, uint32_t pageNumber) {
 }
 
 /**
- * @brief	Puts a given key, data pair into structure.
+ * @brief	Checks that a key is larger than every key inserted before it.
  * @param	state	embedDB algorithm state structure
  * @param	key		Key for record
- * @param	data	Data for record
- * @return	Return 0 if success. Non-zero value if error.
+ * @return	Return 0 if it is, 1 if it is not, and -1 if the previous key could not be read.
  */
-int8_t embedDBPut(embedDBState *state, void *key, void *data) {
-    /* Copy record into block */
-
+int8_t checkKeyOrder(embedDBState *state, void *key) {
     count_t count = EMBEDDB_GET_COUNT(state->buffer);
     if (state->nextDataPageId > 0 || count > 0) {
         void *previousKey = NULL;
@@ -1036,58 +1037,103 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
             return 1;
         }
     }
+    return 0;
+}
 
-    /* Write current page if full */
-    bool wrotePage = false;
-    if (count >= state->maxRecordsPerPage) {
-        // As the first buffer is the data write buffer, no manipulation is required
-        id_t pageNum = writePage(state, state->buffer);
-
-        indexPage(state, pageNum);
-
-        /* Save record in index file */
-        if (state->indexFile != NULL) {
-            void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_INDEX_WRITE_BUFFER);
-            count_t idxcount = EMBEDDB_GET_COUNT(buf);
-            if (idxcount >= state->maxIdxRecordsPerPage) {
-                /* Save index page */
-                writeIndexPage(state, buf);
-
-                idxcount = 0;
-                initBufferPage(state, EMBEDDB_INDEX_WRITE_BUFFER);
-
-                /* Add page id to minimum value spot in page */
-                id_t *ptr = (id_t *)((int8_t *)buf + 8);
-                *ptr = pageNum;
-            }
+/**
+ * @brief	Writes the records in the write buffer to storage as one data page and empties the write buffer.
+ * 			If it fails before the page is written, nothing changes and it can be tried again.
+ * @param	state	embedDB algorithm state structure
+ * @return	Return 0 if success. Non-zero value if error.
+ */
+int8_t writeBufferedRecords(embedDBState *state) {
+    /* The variable data of a record has to be on storage before the record is */
+    if (EMBEDDB_USING_VDATA(state->parameters) && embedDBFlushVar(state) != 0) {
+        return -1;
+    }
 
-            EMBEDDB_INC_COUNT(buf);
+    /* Make sure there is space for one more entry in the index page */
+    void *idxBuf = NULL;
+    if (state->indexFile != NULL) {
+        idxBuf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_INDEX_WRITE_BUFFER);
+        if (EMBEDDB_GET_COUNT(idxBuf) >= state->maxIdxRecordsPerPage) {
+            /* Save index page */
+            if (writeIndexPage(state, idxBuf) == (id_t)-1) {
+                return -1;
+            }
+            initBufferPage(state, EMBEDDB_INDEX_WRITE_BUFFER);
 
-            /* Copy record onto index page */
-            void *bm = EMBEDDB_GET_BITMAP(state->buffer);
-            memcpy((void *)((int8_t *)buf + EMBEDDB_IDX_HEADER_SIZE + state->bitmapSize * idxcount), bm, state->bitmapSize);
+            /* Add page id to minimum value spot in page */
+            memcpy((int8_t *)idxBuf + 8, &state->nextDataPageId, sizeof(id_t));
         }
+    }
+
+    // As the first buffer is the data write buffer, no manipulation is required
+    id_t pageNum = writePage(state, state->buffer);
+    if (pageNum == (id_t)-1) {
+        return -1;
+    }
 
-        updateMaxiumError(state, state->buffer);
+    indexPage(state, pageNum);
 
-        count = 0;
-        initBufferPage(state, 0);
-        wrotePage = true;
+    /* Save record in index file */
+    if (idxBuf != NULL) {
+        count_t idxcount = EMBEDDB_GET_COUNT(idxBuf);
+        EMBEDDB_INC_COUNT(idxBuf);
+
+        /* Copy record onto index page */
+        void *bm = EMBEDDB_GET_BITMAP(state->buffer);
+        memcpy((void *)((int8_t *)idxBuf + EMBEDDB_IDX_HEADER_SIZE + state->bitmapSize * idxcount), bm, state->bitmapSize);
+    }
+
+    updateMaxiumError(state, state->buffer);
+
+    initBufferPage(state, EMBEDDB_DATA_WRITE_BUFFER);
+    return 0;
+}
+
+/**
+ * @brief	Puts a given key, data pair into structure.
+ * @param	state	embedDB algorithm state structure
+ * @param	key		Key for record
+ * @param	data	Data for record
+ * @return	Return 0 if success. Non-zero value if error.
+ */
+int8_t embedDBPut(embedDBState *state, void *key, void *data) {
+    int8_t orderResult = checkKeyOrder(state, key);
+    if (orderResult != 0) {
+        return orderResult;
+    }
+    return putRecord(state, key, data, EMBEDDB_NO_VAR_DATA);
+}
+
+/**
+ * @brief	Puts a record, whose key is known to be in order, into the write buffer.
+ * @param	state			embedDB algorithm state structure
+ * @param	key				Key for record
+ * @param	data			Data for record
+ * @param	varDataLocation	Location of the variable data of the record or EMBEDDB_NO_VAR_DATA. Only used with variable data.
+ * @return	Return 0 if success. Non-zero value if error.
+ */
+int8_t putRecord(embedDBState *state, void *key, void *data, uint32_t varDataLocation) {
+    /* Write current page if full */
+    if (EMBEDDB_GET_COUNT(state->buffer) >= state->maxRecordsPerPage && writeBufferedRecords(state) != 0) {
+        return -1;
+    }
+
+    /* Need to move record level consistency blocks if the last page of a block was written */
+    if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters) && shiftRecordLevelConsistencyBlocks(state) != 0) {
+        return -1;
     }
 
     /* Copy record onto page */
+    count_t count = EMBEDDB_GET_COUNT(state->buffer);
     memcpy((int8_t *)state->buffer + (state->recordSize * count) + state->headerSize, key, state->keySize);
     memcpy((int8_t *)state->buffer + (state->recordSize * count) + state->headerSize + state->keySize, data, state->dataSize);
 
     /* Copy variable data offset if using variable data*/
     if (EMBEDDB_USING_VDATA(state->parameters)) {
-        uint32_t dataLocation;
-        if (state->recordHasVarData) {
-            dataLocation = state->currentVarLoc % (state->numVarPages * state->pageSize);
-        } else {
-            dataLocation = EMBEDDB_NO_VAR_DATA;
-        }
-        memcpy((int8_t *)state->buffer + (state->recordSize * count) + state->headerSize + state->keySize + state->dataSize, &dataLocation, sizeof(uint32_t));
+        memcpy((int8_t *)state->buffer + (state->recordSize * count) + state->headerSize + state->keySize + state->dataSize, &varDataLocation, sizeof(uint32_t));
     }
 
     /* Update count */
@@ -1130,18 +1176,28 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
 
     /* If using record level consistency, we need to immediately write the updated page to storage */
     if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) {
-        /* Need to move record level consistency pointers if on a block boundary */
-        if (wrotePage && state->nextDataPageId % state->eraseSizeInPages == 0) {
-            /* move record-level consistency blocks */
-            shiftRecordLevelConsistencyBlocks(state);
+        int8_t writeResult = writeTemporaryPage(state, state->buffer);
+        if (writeResult != 0) {
+            /* The record is not on storage, so take it back out of the write buffer */
+            memcpy((int8_t *)state->buffer + EMBEDDB_COUNT_OFFSET, &count, sizeof(count_t));
+            return writeResult;
         }
-        return writeTemporaryPage(state, state->buffer);
     }
 
     return 0;
 }
 
+/**
+ * @brief	Moves the record-level consistency blocks to the block after the one that is written next, unless they already are there.
+ * @param	state	embedDB algorithm state structure
+ * @return	Return 0 if success. Non-zero value if error.
+ */
 int8_t shiftRecordLevelConsistencyBlocks(embedDBState *state) {
+    /* only needed when we are on a block boundary and the blocks have not been moved yet */
+    if (state->nextDataPageId % state->eraseSizeInPages != 0 || state->rlcPhysicalStartingPage != state->nextDataPageId % state->numDataPages) {
+        return 0;
+    }
+
     /* erase the record-level consistency blocks */
 
     /* TODO: Likely an optimisation here where we don't always need to erase the second block, but that will make this algorithm more complicated and the savings could be minimal */
@@ -1211,37 +1267,30 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
         return -1;
     }
 
-    // Insert their data
-
-    /*
-     * Check that there is enough space remaining in this page to start the insert of the variable
-     * data here and if the data page will be written in embedDBGet
-     */
-    void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
-    if (state->currentVarLoc % state->pageSize > state->pageSize - 4 || (!(EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) && EMBEDDB_GET_COUNT(state->buffer) >= state->maxRecordsPerPage)) {
-        writeVariablePage(state, buf);
-        initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
-        // Move data writing location to the beginning of the next page, leaving the room for the header
-        state->currentVarLoc += state->pageSize - state->currentVarLoc % state->pageSize + state->variableDataHeaderSize;
+    int8_t orderResult = checkKeyOrder(state, key);
+    if (orderResult != 0) {
+        return orderResult;
     }
 
     if (variableData == NULL) {
         // Var data enabled, but not provided
-        state->recordHasVarData = 0;
-        return embedDBPut(state, key, data);
+        return putRecord(state, key, data, EMBEDDB_NO_VAR_DATA);
     }
 
-    // Perform the regular insert
-    state->recordHasVarData = 1;
-    int8_t r;
-    if ((r = embedDBPut(state, key, data)) != 0) {
-        return r;
+    // Write current page if full, so that its variable data and the variable data of this record are not on the same page
+    if (EMBEDDB_GET_COUNT(state->buffer) >= state->maxRecordsPerPage && writeBufferedRecords(state) != 0) {
+        return -1;
     }
 
-    if (state->minVarRecordId == UINT64_MAX) {
-        memcpy(&state->minVarRecordId, key, state->keySize);
+    // Check that there is enough space remaining in this page to start the insert of the variable data here
+    void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
+    if ((state->currentVarLoc % state->pageSize == 0 || state->currentVarLoc % state->pageSize > state->pageSize - 4) && writeBufferedVarData(state) != 0) {
+        return -1;
     }
 
+    // The record points at the variable data, so that has to be written first
+    uint32_t varDataLocation = state->currentVarLoc % (state->numVarPages * state->pageSize);
+
     // Update the header to include the maximum key value stored on this page
     memcpy((int8_t *)buf + sizeof(id_t), key, state->keySize);
 
@@ -1251,15 +1300,15 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
 
     // Check if we need to write after doing that
     if (state->currentVarLoc % state->pageSize == 0) {
-        writeVariablePage(state, buf);
-        initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
+        if (writeBufferedVarData(state) != 0) {
+            return -1;
+        }
 
         // Update the header to include the maximum key value stored on this page
         memcpy((int8_t *)buf + sizeof(id_t), key, state->keySize);
-        state->currentVarLoc += state->variableDataHeaderSize;
     }
 
-    int amtWritten = 0;
+    uint32_t amtWritten = 0;
     while (length > 0) {
         // Copy data into the buffer. Write the min of the space left in this page and the remaining length of the data
         uint16_t amtToWrite = min(state->pageSize - state->currentVarLoc % state->pageSize, length);
@@ -1270,22 +1319,51 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
 
         // If we need to write the buffer to file
         if (state->currentVarLoc % state->pageSize == 0) {
-            writeVariablePage(state, buf);
-            initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
+            if (writeBufferedVarData(state) != 0) {
+                return -1;
+            }
 
             // Update the header to include the maximum key value stored on this page and account for page number
             memcpy((int8_t *)buf + sizeof(id_t), key, state->keySize);
-            state->currentVarLoc += state->variableDataHeaderSize;
         }
     }
 
-    if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) {
-        embedDBFlushVar(state);
+    if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters) && embedDBFlushVar(state) != 0) {
+        return -1;
+    }
+
+    // Perform the regular insert
+    int8_t putResult = putRecord(state, key, data, varDataLocation);
+    if (putResult != 0) {
+        return putResult;
+    }
+
+    if (state->minVarRecordId == UINT64_MAX) {
+        state->minVarRecordId = 0;
+        memcpy(&state->minVarRecordId, key, state->keySize);
     }
 
     return 0;
 }
 
+/**
+ * @brief	Writes the variable data write buffer to storage and moves on to the start of the next page.
+ * 			If it fails, nothing changes and it can be tried again.
+ * @param	state	embedDB algorithm state structure
+ * @return	Return 0 if success. Non-zero value if error.
+ */
+int8_t writeBufferedVarData(embedDBState *state) {
+    id_t writeResult = writeVariablePage(state, (int8_t *)state->buffer + EMBEDDB_VAR_WRITE_BUFFER(state->parameters) * state->pageSize);
+    if (writeResult == (id_t)-1) {
+        return -1;
+    }
+    // init new buffer
+    initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
+    // Move data writing location to the beginning of the next page, leaving the room for the header
+    state->currentVarLoc = (state->nextVarPageId % state->numVarPages) * state->pageSize + state->variableDataHeaderSize;
+    return 0;
+}
+
 /**
  * @brief	Given a key, estimates the location of the key within the node.
  * @param	state	embedDB algorithm state structure
@@ -1660,21 +1738,19 @@ int8_t embedDBFlushVar(embedDBState *state) {
     }
 
     // only flush variable buffer
-    id_t writeResult = writeVariablePage(state, (int8_t *)state->buffer + EMBEDDB_VAR_WRITE_BUFFER(state->parameters) * state->pageSize);
-    if (writeResult == -1) {
+    if (writeBufferedVarData(state) != 0) {
 #ifdef PRINT_ERRORS
         printf("Failed to write variable data page during embedDBFlushVar.");
 #endif
         return -1;
     }
 
-    state->fileInterface->flush(state->varFile);
-    // init new buffer
-    initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
-    // determine how many bytes are left
-    int temp = state->pageSize - (state->currentVarLoc % state->pageSize);
-    // create new offset
-    state->currentVarLoc += temp + state->variableDataHeaderSize;
+    if (state->fileInterface->flush(state->varFile) == 0) {
+#ifdef PRINT_ERRORS
+        printf("Failed to flush the variable data file during embedDBFlushVar.");
+#endif
+        return -1;
+    }
     return 0;
 }
 
@@ -1689,54 +1765,50 @@ int8_t embedDBFlush(embedDBState *state) {
     if (EMBEDDB_GET_COUNT(buffer) < 1)
         return 0;
 
-    id_t pageNum = writePage(state, buffer);
-    if (pageNum == -1) {
+    // This also writes the variable data page
+    if (writeBufferedRecords(state) != 0) {
 #ifdef PRINT_ERRORS
         printf("Failed to write page during embedDBFlush.");
 #endif
         return -1;
     }
 
-    state->fileInterface->flush(state->dataFile);
+    if (state->fileInterface->flush(state->dataFile) == 0) {
+#ifdef PRINT_ERRORS
+        printf("Failed to flush the data file during embedDBFlush.");
+#endif
+        return -1;
+    }
 
-    indexPage(state, pageNum);
+    /* Need to move record level consistency blocks if the last page of a block was written */
+    if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters) && shiftRecordLevelConsistencyBlocks(state) != 0) {
+        return -1;
+    }
 
     if (EMBEDDB_USING_INDEX(state->parameters)) {
         void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_INDEX_WRITE_BUFFER);
-        count_t idxcount = EMBEDDB_GET_COUNT(buf);
-        EMBEDDB_INC_COUNT(buf);
-
-        /* Copy record onto index page */
-        void *bm = EMBEDDB_GET_BITMAP(state->buffer);
-        memcpy((void *)((int8_t *)buf + EMBEDDB_IDX_HEADER_SIZE + state->bitmapSize * idxcount), bm, state->bitmapSize);
-
         id_t writeResult = writeIndexPage(state, buf);
-        if (writeResult == -1) {
+        if (writeResult == (id_t)-1) {
 #ifdef PRINT_ERRORS
             printf("Failed to write index page during embedDBFlush.");
 #endif
             return -1;
         }
 
-        state->fileInterface->flush(state->indexFile);
-
         /* Reinitialize buffer */
         initBufferPage(state, EMBEDDB_INDEX_WRITE_BUFFER);
-    }
 
-    /* Reinitialize buffer */
-    initBufferPage(state, EMBEDDB_DATA_WRITE_BUFFER);
+        /* Add page id to minimum value spot in page */
+        memcpy((int8_t *)buf + 8, &state->nextDataPageId, sizeof(id_t));
 
-    // Flush var data page
-    if (EMBEDDB_USING_VDATA(state->parameters)) {
-        int8_t varFlushResult = embedDBFlushVar(state);
-        if (varFlushResult != 0) {
+        if (state->fileInterface->flush(state->indexFile) == 0) {
 #ifdef PRINT_ERRORS
-            printf("Failed to flush variable data page");
+            printf("Failed to flush the index file during embedDBFlush.");
 #endif
             return -1;
         }
     }
+
     return 0;
 }
 
@@ -2016,7 +2088,7 @@ id_t writePage(embedDBState *state, void *buffer) {
         return -1;
 
     /* Always writes to next page number. Returned to user. */
-    id_t pageNum = state->nextDataPageId++;
+    id_t pageNum = state->nextDataPageId;
     id_t physicalPageNum = pageNum % state->numDataPages;
 
     /* Setup page number in header */
@@ -2054,6 +2126,7 @@ id_t writePage(embedDBState *state, void *buffer) {
         return -1;
     }
 
+    state->nextDataPageId++;
     state->numAvailDataPages--;
     state->numWrites++;
 
@@ -2096,21 +2169,22 @@ int8_t writeTemporaryPage(embedDBState *state, void *buffer) {
         if (!eraseSuccess) {
 #ifdef PRINT_ERRORS
             printf("Failed to erase block starting at physical page %i in the data file.", state->nextRLCPhysicalPageLocation);
-            return -2;
 #endif
+            return -2;
         }
         invalidateBufferedPages(&state->bufferedPageId, eraseStartingPage, eraseEndingPage);
     }
 
     /* Write temporary page to storage */
     invalidateBufferedPages(&state->bufferedPageId, state->nextRLCPhysicalPageLocation, state->nextRLCPhysicalPageLocation + 1);
-    int8_t writeSuccess = state->fileInterface->write(buffer, state->nextRLCPhysicalPageLocation++, state->pageSize, state->dataFile);
+    int8_t writeSuccess = state->fileInterface->write(buffer, state->nextRLCPhysicalPageLocation, state->pageSize, state->dataFile);
     if (!writeSuccess) {
 #ifdef PRINT_ERRORS
-        printf("Failed to write temporary page for record-level-consistency: Logical Page Number %i - Physical Page (%i)\n", state->nextDataPageId, state->nextRLCPhysicalPageLocation - 1);
+        printf("Failed to write temporary page for record-level-consistency: Logical Page Number %i - Physical Page (%i)\n", state->nextDataPageId, state->nextRLCPhysicalPageLocation);
 #endif
         return -1;
     }
+    state->nextRLCPhysicalPageLocation++;
 
     return 0;
 }
@@ -2153,7 +2227,7 @@ id_t writeIndexPage(embedDBState *state, void *buffer) {
         return -1;
 
     /* Always writes to next page number. Returned to user. */
-    id_t pageNum = state->nextIdxPageId++;
+    id_t pageNum = state->nextIdxPageId;
     id_t physicalPageNumber = pageNum % state->numIndexPages;
 
     /* Setup page number in header */
@@ -2183,6 +2257,7 @@ id_t writeIndexPage(embedDBState *state, void *buffer) {
         return -1;
     }
 
+    state->nextIdxPageId++;
     state->numAvailIndexPages--;
     state->numIdxWrites++;
 
diff --git a/src/embedDB/embedDB.h b/src/embedDB/embedDB.h
index 33173b6..1479ba0 100644
--- a/src/embedDB/embedDB.h
+++ b/src/embedDB/embedDB.h
@@ -246,7 +246,6 @@ typedef struct {
     id_t bufferedPageId;                                                  /* Page id currently in read buffer */
     id_t bufferedIndexPageId;                                             /* Index page id currently in index read buffer */
     id_t bufferedVarPage;                                                 /* Variable page id currently in variable read buffer */
-    uint8_t recordHasVarData;                                             /* Internal flag to signal that the record currently being written has var data */
 } embedDBState;
 
 typedef struct {
-- 
2.43.0


From 838b12520ebfe8cadf7648d9b8b1121232109e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:02 +0000
Subject: [PATCH 08/45] fix: recover data from every state a crash can leave
 behind

The recovery assumed that page 0 holds data, took any page whose id fits its
location for valid, kept a given-up block unerased although it was counted as
available, erased outside the page area when the last page ended the file,
and the temporary pages were never erased with blocks of a single page.
---
 lib/Distribution/embedDB.c | 331 +++++++++++++++----------------------
 src/embedDB/embedDB.c      | 323 ++++++++++++++----------------------
 2 files changed, 254 insertions(+), 400 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index d1adcf3..bff91ad 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -474,6 +474,8 @@ void *splinePointLocation(spline *spl, size_t pointIndex) {
 
 /* Helper Functions */
 int8_t embedDBInitData(embedDBState *state);
+bool readRecoveredDataPage(embedDBState *state, id_t physicalPageId, id_t *logicalPageId);
+int8_t eraseDataBlock(embedDBState *state, id_t physicalPageId);
 int8_t embedDBInitDataFromFile(embedDBState *state);
 int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state);
 int8_t embedDBInitIndex(embedDBState *state);
@@ -750,92 +752,89 @@ int8_t embedDBInitData(embedDBState *state) {
     return 0;
 }
 
+/**
+ * @brief   Reads a data page during recovery and checks if it is a page that was written to that location.
+ *          The location may also contain a page that was never written or erased, so contains junk data.
+ * @param   state           embedDB algorithm state structure
+ * @param   physicalPageId  Physical page to read
+ * @param   logicalPageId   Return variable for the logical page id. Only valid if the page is.
+ * @return  Returns true if the page is valid, otherwise false
+ */
+bool readRecoveredDataPage(embedDBState *state, id_t physicalPageId, id_t *logicalPageId) {
+    if (physicalPageId >= state->numDataPages || readPage(state, physicalPageId) != 0) {
+        return false;
+    }
+
+    void *buffer = (int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_READ_BUFFER;
+    memcpy(logicalPageId, buffer, sizeof(id_t));
+    count_t numRecords = EMBEDDB_GET_COUNT(buffer);
+    return *logicalPageId % state->numDataPages == physicalPageId && numRecords > 0 && numRecords <= state->maxRecordsPerPage;
+}
+
+/**
+ * @brief   Erases the block of the data file which starts at the given page.
+ * @param   state           embedDB algorithm state structure
+ * @param   physicalPageId  First physical page of the block
+ * @return  Return 0 if success, -1 if error.
+ */
+int8_t eraseDataBlock(embedDBState *state, id_t physicalPageId) {
+    invalidateBufferedPages(&state->bufferedPageId, physicalPageId, physicalPageId + state->eraseSizeInPages);
+    int8_t eraseSuccess = state->fileInterface->erase(physicalPageId, physicalPageId + state->eraseSizeInPages, state->pageSize, state->dataFile);
+    if (eraseSuccess != 1) {
+#ifdef PRINT_ERRORS
+        printf("Error: Unable to erase the block starting at physical page %u in the data file!\n", physicalPageId);
+#endif
+        return -1;
+    }
+    return 0;
+}
+
 int8_t embedDBInitDataFromFile(embedDBState *state) {
     id_t logicalPageId = 0;
+    id_t minLogicalPageId = 0;
     id_t maxLogicalPageId = 0;
-    id_t physicalPageId = 0;
-    uint32_t count = 0;
     count_t blockSize = state->eraseSizeInPages;
-    bool validData = false;
-    bool hasData = false;
     void *buffer = (int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_READ_BUFFER;
 
-    /* This will become zero if there is no more to read */
-    int8_t moreToRead = !(readPage(state, physicalPageId));
-
-    /* this handles the case where the first page may have been erased, so has junk data and we actually need to start from the second page */
-    uint32_t i = 0;
-    count_t numRecords = 0;
-    while (moreToRead && i < 2) {
-        memcpy(&logicalPageId, buffer, sizeof(id_t));
-        validData = logicalPageId % state->numDataPages == count;
-        numRecords = EMBEDDB_GET_COUNT(buffer);
-        if (validData && numRecords > 0 && numRecords < state->maxRecordsPerPage + 1) {
-            hasData = true;
-            maxLogicalPageId = logicalPageId;
-            physicalPageId++;
-            updateMaxiumError(state, buffer);
-            count++;
-            i = 2;
-        } else {
-            physicalPageId += blockSize;
-            count += blockSize;
-        }
-        moreToRead = !(readPage(state, physicalPageId));
-        i++;
+    /* The first block may have been erased to make space for new data, so has junk data and we actually need to start from the second block */
+    id_t firstPhysicalPageId = 0;
+    if (!readRecoveredDataPage(state, firstPhysicalPageId, &minLogicalPageId)) {
+        firstPhysicalPageId = blockSize;
+        /* if we have no valid data, we just have an empty file can can start from the scratch */
+        if (!readRecoveredDataPage(state, firstPhysicalPageId, &minLogicalPageId))
+            return 0;
     }
 
-    /* if we have no valid data, we just have an empty file can can start from the scratch */
-    if (!hasData)
-        return 0;
-
-    while (moreToRead && count < state->numDataPages) {
-        memcpy(&logicalPageId, buffer, sizeof(id_t));
-        validData = logicalPageId % state->numDataPages == count;
-        if (validData && logicalPageId == maxLogicalPageId + 1) {
-            maxLogicalPageId = logicalPageId;
-            physicalPageId++;
-            updateMaxiumError(state, buffer);
-            moreToRead = !(readPage(state, physicalPageId));
-            count++;
-        } else {
-            break;
-        }
+    /* Find the last page that was written */
+    maxLogicalPageId = minLogicalPageId;
+    updateMaxiumError(state, buffer);
+    id_t physicalPageId = firstPhysicalPageId + 1;
+    while (readRecoveredDataPage(state, physicalPageId, &logicalPageId) && logicalPageId == maxLogicalPageId + 1) {
+        maxLogicalPageId = logicalPageId;
+        updateMaxiumError(state, buffer);
+        physicalPageId++;
     }
 
     /*
      * Now we need to find where the page with the smallest key that is still valid.
-     * The default case is we have not wrapped and the page number for the physical page with the smallest key is 0.
+     * The default case is that it is the first page of the file. If we have wrapped, the rest of the block we are writing to contains no data
+     * and the smallest key is on the first page of the next block.
      */
-    id_t physicalPageIDOfSmallestData = 0;
-
-    /* check if data exists at this location */
-    if (moreToRead && count < state->numDataPages) {
-        /* find where the next block boundary is */
-        id_t pagesToBlockBoundary = blockSize - (count % blockSize);
-
-        /* go to the next block boundary */
-        physicalPageId = (physicalPageId + pagesToBlockBoundary) % state->numDataPages;
-        moreToRead = !(readPage(state, physicalPageId));
-
-        /* there should have been more to read becuase the file should not be empty at this point if it was not empty at the previous block */
-        if (!moreToRead) {
-            return -1;
+    if (physicalPageId < state->numDataPages) {
+        id_t nextBlock = physicalPageId - physicalPageId % blockSize + blockSize;
+        id_t expectedLogicalPageId = maxLogicalPageId + 1 + (nextBlock - physicalPageId) - state->numDataPages;
+        if (readRecoveredDataPage(state, nextBlock, &logicalPageId) && logicalPageId == expectedLogicalPageId) {
+            minLogicalPageId = logicalPageId;
         }
 
-        /* check if data is valid or if it is junk */
-        memcpy(&logicalPageId, buffer, sizeof(id_t));
-        validData = logicalPageId % state->numDataPages == physicalPageId;
-
-        /* this means we have wrapped and our start is actually here */
-        if (validData) {
-            physicalPageIDOfSmallestData = physicalPageId;
+        /* If the last page of a block was written, we can not tell if the next block has already been erased, so make sure it is */
+        if (minLogicalPageId > 0 && physicalPageId % blockSize == 0 && eraseDataBlock(state, physicalPageId) != 0) {
+            return -1;
         }
     }
 
     state->nextDataPageId = maxLogicalPageId + 1;
-    readPage(state, physicalPageIDOfSmallestData);
-    memcpy(&(state->minDataPageId), buffer, sizeof(id_t));
+    state->minDataPageId = minLogicalPageId;
     state->numAvailDataPages = state->numDataPages + state->minDataPageId - maxLogicalPageId - 1;
 
     /* Put largest key back into the buffer */
@@ -850,114 +849,68 @@ int8_t embedDBInitDataFromFile(embedDBState *state) {
 
 int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
     id_t logicalPageId = 0;
+    id_t minLogicalPageId = 0;
     id_t maxLogicalPageId = 0;
     id_t physicalPageId = 0;
-    uint32_t count = 0;
     count_t blockSize = state->eraseSizeInPages;
-    bool validData = false;
     bool hasPermanentData = false;
     void *buffer = (int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_READ_BUFFER;
 
-    /* This will become zero if there is no more to read */
-    int8_t moreToRead = !(readPage(state, physicalPageId));
-
-    /* This handles the case that the first three pages may not have valid data in them.
-     * They may be either an erased page or pages for record-level consistency.
+    /* This handles the case that the first three blocks may not have valid data in them.
+     * They may be either an erased block or blocks for record-level consistency.
      */
-    uint32_t i = 0;
-    count_t numRecords = 0;
-    while (moreToRead && i < 4) {
-        memcpy(&logicalPageId, buffer, sizeof(id_t));
-        validData = logicalPageId % state->numDataPages == count;
-        numRecords = EMBEDDB_GET_COUNT(buffer);
-        if (validData && numRecords > 0 && numRecords < state->maxRecordsPerPage + 1) {
-            /* Setup for next loop so it does not have to worry about setting the initial values */
-            hasPermanentData = true;
-            maxLogicalPageId = logicalPageId;
-            physicalPageId++;
-            updateMaxiumError(state, buffer);
-            count++;
-            i = 4;
-        } else {
-            physicalPageId += blockSize;
-            count += blockSize;
-        }
-        moreToRead = !(readPage(state, physicalPageId));
-        i++;
+    for (uint32_t i = 0; i < 4 && !hasPermanentData; i++) {
+        physicalPageId = i * blockSize;
+        hasPermanentData = readRecoveredDataPage(state, physicalPageId, &minLogicalPageId);
     }
 
     if (hasPermanentData) {
-        while (moreToRead && count < state->numDataPages) {
-            memcpy(&logicalPageId, buffer, sizeof(id_t));
-            validData = logicalPageId % state->numDataPages == count;
-            if (validData && logicalPageId == maxLogicalPageId + 1) {
-                maxLogicalPageId = logicalPageId;
-                physicalPageId++;
-                updateMaxiumError(state, buffer);
-                moreToRead = !(readPage(state, physicalPageId));
-                count++;
-            } else {
-                break;
-            }
+        /* Find the last page that was written permanently */
+        maxLogicalPageId = minLogicalPageId;
+        updateMaxiumError(state, buffer);
+        physicalPageId++;
+        while (readRecoveredDataPage(state, physicalPageId, &logicalPageId) && logicalPageId == maxLogicalPageId + 1) {
+            maxLogicalPageId = logicalPageId;
+            updateMaxiumError(state, buffer);
+            physicalPageId++;
         }
+        physicalPageId %= state->numDataPages;
     } else {
         /* Case where the there is no permanent pages written, but we may still have record-level consistency records in block 2 */
-        count = 0;
         physicalPageId = 0;
     }
 
-    /* find where the next block boundary is */
-    id_t pagesToBlockBoundary = blockSize - (count % blockSize);
-    /* if we are on a block-boundary, we erase the next page in case the erase failed and then skip to the start of the next block */
-    if (pagesToBlockBoundary == blockSize) {
-        int8_t eraseSuccess = state->fileInterface->erase(count, count + blockSize, state->pageSize, state->dataFile);
-        if (!eraseSuccess) {
-#ifdef PRINT_ERRORS
-            printf("Error: Unable to erase data page during recovery!\n");
-#endif
-            return -1;
+    /* if we are on a block-boundary, we erase the next block in case the erase failed */
+    id_t nextLogicalPageId = hasPermanentData ? maxLogicalPageId + 1 : 0;
+    id_t nextPhysicalPageId = physicalPageId;
+    if (nextPhysicalPageId % blockSize == 0 && eraseDataBlock(state, nextPhysicalPageId) != 0) {
+        return -1;
+    }
+
+    /* the record-level consistency blocks start at the next block boundary */
+    state->rlcPhysicalStartingPage = (nextPhysicalPageId - nextPhysicalPageId % blockSize + blockSize) % state->numDataPages;
+    state->nextRLCPhysicalPageLocation = state->rlcPhysicalStartingPage;
+
+    /* record-level consistency recovery algorithm: find the page for the next logical page which has the most records */
+    uint32_t rlcMaxRecordCount = 0;
+    uint32_t rlcMaxPage = 0;
+    for (uint32_t i = 0; i < blockSize * 2; i++) {
+        physicalPageId = (state->rlcPhysicalStartingPage + i) % state->numDataPages;
+        if (readPage(state, physicalPageId) != 0) {
+            continue;
         }
-        invalidateBufferedPages(&state->bufferedPageId, count, count + blockSize);
-    }
-
-    /* go to the next block boundary */
-    physicalPageId = (physicalPageId + pagesToBlockBoundary) % state->numDataPages;
-    state->rlcPhysicalStartingPage = physicalPageId;
-    state->nextRLCPhysicalPageLocation = physicalPageId;
-
-    /* record-level consistency recovery algorithm */
-    uint32_t numPagesRead = 0;
-    uint32_t numPagesToRead = blockSize * 2;
-    uint32_t rlcMaxLogicialPageNumber = UINT32_MAX;
-    uint32_t rlcMaxRecordCount = UINT32_MAX;
-    uint32_t rlcMaxPage = UINT32_MAX;
-    moreToRead = !(readPage(state, physicalPageId));
-    while (moreToRead && numPagesRead < numPagesToRead) {
         memcpy(&logicalPageId, buffer, sizeof(id_t));
-        /* If the next logical page number is not the one after the max data page, we can just skip to the next page.
-         * We also need to read the page if there are no permanent records but the logicalPageId is zero, as this indicates we have record-level consistency records
-         */
-        if (logicalPageId == maxLogicalPageId + 1 || (logicalPageId == 0 && !hasPermanentData)) {
-            uint32_t numRecords = EMBEDDB_GET_COUNT(buffer);
-            if (rlcMaxRecordCount == UINT32_MAX || numRecords > rlcMaxRecordCount) {
-                rlcMaxRecordCount = numRecords;
-                rlcMaxLogicialPageNumber = logicalPageId;
-                rlcMaxPage = numPagesRead;
-            }
+        count_t numRecords = EMBEDDB_GET_COUNT(buffer);
+        if (logicalPageId == nextLogicalPageId && numRecords <= state->maxRecordsPerPage && numRecords > rlcMaxRecordCount) {
+            rlcMaxRecordCount = numRecords;
+            rlcMaxPage = i;
         }
-        physicalPageId = (physicalPageId + 1) % state->numDataPages;
-        moreToRead = !(readPage(state, physicalPageId));
-        numPagesRead++;
-    }
-
-    /* need to find larged record-level consistency page to place back into the buffer and either one or both of the record-level consistency pages */
-    uint32_t eraseStartingPage = 0;
-    uint32_t eraseEndingPage = 0;
-    uint32_t numBlocksToErase = 0;
-    if (rlcMaxLogicialPageNumber == UINT32_MAX) {
-        eraseStartingPage = state->rlcPhysicalStartingPage % state->numDataPages;
-        numBlocksToErase = 2;
-    } else {
+    }
+
+    /* need to put the largest record-level consistency page back into the buffer and erase either one or both of the record-level consistency blocks */
+    id_t eraseStartingPage = state->rlcPhysicalStartingPage;
+    uint32_t numBlocksToErase = 2;
+    if (rlcMaxRecordCount > 0) {
         state->nextRLCPhysicalPageLocation = (state->rlcPhysicalStartingPage + rlcMaxPage + 1) % state->numDataPages;
         /* need to read the max page into read buffer again so we can copy into the write buffer */
         int8_t readSuccess = readPage(state, (state->rlcPhysicalStartingPage + rlcMaxPage) % state->numDataPages);
@@ -973,16 +926,10 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
     }
 
     for (uint32_t i = 0; i < numBlocksToErase; i++) {
-        eraseEndingPage = eraseStartingPage + blockSize;
-        int8_t eraseSuccess = state->fileInterface->erase(eraseStartingPage, eraseEndingPage, state->pageSize, state->dataFile);
-        if (!eraseSuccess) {
-#ifdef PRINT_ERRORS
-            printf("Error: Unable to erase pages in data file!\n");
-#endif
+        if (eraseDataBlock(state, eraseStartingPage) != 0) {
             return -1;
         }
-        invalidateBufferedPages(&state->bufferedPageId, eraseStartingPage, eraseEndingPage);
-        eraseStartingPage = eraseEndingPage % state->numDataPages;
+        eraseStartingPage = (eraseStartingPage + blockSize) % state->numDataPages;
     }
 
     /* if we don't have any permanent data, we can just return now that the record-level consistency records have been handled */
@@ -991,25 +938,16 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
     }
 
     /* Now check if we have wrapped after the record level consistency.
-     * The default case is we start at beginning of data file.
+     * The default case is we start at the first valid page in the data file.
      */
-    id_t physicalPageIDOfSmallestData = 0;
-
     physicalPageId = (state->rlcPhysicalStartingPage + 2 * blockSize) % state->numDataPages;
-    int8_t readSuccess = readPage(state, physicalPageId);
-    if (readSuccess == 0) {
-        memcpy(&logicalPageId, buffer, sizeof(id_t));
-        validData = logicalPageId % state->numDataPages == physicalPageId;
-
-        /* this means we have wrapped and our start is actually here */
-        if (validData) {
-            physicalPageIDOfSmallestData = physicalPageId;
-        }
+    id_t expectedLogicalPageId = nextLogicalPageId + (physicalPageId + state->numDataPages - nextPhysicalPageId) % state->numDataPages - state->numDataPages;
+    if (readRecoveredDataPage(state, physicalPageId, &logicalPageId) && logicalPageId == expectedLogicalPageId) {
+        minLogicalPageId = logicalPageId;
     }
 
-    state->nextDataPageId = maxLogicalPageId + 1;
-    readPage(state, physicalPageIDOfSmallestData);
-    memcpy(&(state->minDataPageId), buffer, sizeof(id_t));
+    state->nextDataPageId = nextLogicalPageId;
+    state->minDataPageId = minLogicalPageId;
     state->numAvailDataPages = state->numDataPages + state->minDataPageId - maxLogicalPageId - 1 - (2 * blockSize);
 
     /* Put largest key back into the buffer */
@@ -1626,8 +1564,7 @@ int8_t shiftRecordLevelConsistencyBlocks(embedDBState *state) {
 
     /* TODO: Likely an optimisation here where we don't always need to erase the second block, but that will make this algorithm more complicated and the savings could be minimal */
     uint32_t numRecordLevelConsistencyPages = state->eraseSizeInPages * 2;
-    uint32_t eraseStartingPage = state->rlcPhysicalStartingPage;
-    uint32_t eraseEndingPage = 0;
+    id_t eraseStartingPage = state->rlcPhysicalStartingPage;
 
     /* if we have wraped, we need to erase an additional block as the block we are shifting into is not empty */
     bool haveWrapped = (state->minDataPageId % state->numDataPages) == ((state->rlcPhysicalStartingPage + numRecordLevelConsistencyPages) % state->numDataPages);
@@ -1635,16 +1572,10 @@ int8_t shiftRecordLevelConsistencyBlocks(embedDBState *state) {
 
     /* Erase pages to make space for new data */
     for (size_t i = 0; i < numBlocksToErase; i++) {
-        eraseEndingPage = eraseStartingPage + state->eraseSizeInPages;
-        int8_t eraseSuccess = state->fileInterface->erase(eraseStartingPage, eraseEndingPage, state->pageSize, state->dataFile);
-        if (!eraseSuccess) {
-#ifdef PRINT_ERRORS
-            printf("Error: Unable to erase pages in data file when shifting record level consistency blocks!\n");
-#endif
+        if (eraseDataBlock(state, eraseStartingPage) != 0) {
             return -1;
         }
-        invalidateBufferedPages(&state->bufferedPageId, eraseStartingPage, eraseEndingPage);
-        eraseStartingPage = eraseEndingPage % state->numDataPages;
+        eraseStartingPage = (eraseStartingPage + state->eraseSizeInPages) % state->numDataPages;
     }
 
     /* shift min data page if needed */
@@ -2580,23 +2511,19 @@ int8_t writeTemporaryPage(embedDBState *state, void *buffer) {
         state->nextRLCPhysicalPageLocation = state->rlcPhysicalStartingPage;
     }
 
-    /* If in pageNum is second page in block, we erase the other record-level consistency block */
-    if (state->nextRLCPhysicalPageLocation % state->eraseSizeInPages == 1) {
-        uint32_t eraseStartingPage = state->rlcPhysicalStartingPage;
-        count_t blockSize = state->eraseSizeInPages;
+    /* If in pageNum is second page in block, we erase the other record-level consistency block. A block of a single page is erased right before it is written. */
+    if (state->eraseSizeInPages == 1) {
+        if (eraseDataBlock(state, state->nextRLCPhysicalPageLocation) != 0) {
+            return -2;
+        }
+    } else if (state->nextRLCPhysicalPageLocation % state->eraseSizeInPages == 1) {
+        id_t eraseStartingPage = state->rlcPhysicalStartingPage;
         if (state->nextRLCPhysicalPageLocation == eraseStartingPage + 1) {
-            eraseStartingPage = (eraseStartingPage + blockSize) % state->numDataPages;
+            eraseStartingPage = (eraseStartingPage + state->eraseSizeInPages) % state->numDataPages;
         }
-        uint32_t eraseEndingPage = eraseStartingPage + blockSize;
-
-        int8_t eraseSuccess = state->fileInterface->erase(eraseStartingPage, eraseEndingPage, state->pageSize, state->dataFile);
-        if (!eraseSuccess) {
-#ifdef PRINT_ERRORS
-            printf("Failed to erase block starting at physical page %i in the data file.", state->nextRLCPhysicalPageLocation);
-#endif
+        if (eraseDataBlock(state, eraseStartingPage) != 0) {
             return -2;
         }
-        invalidateBufferedPages(&state->bufferedPageId, eraseStartingPage, eraseEndingPage);
     }
 
     /* Write temporary page to storage */
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index d78974b..bfbea16 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -50,6 +50,8 @@
 
 /* Helper Functions */
 int8_t embedDBInitData(embedDBState *state);
+bool readRecoveredDataPage(embedDBState *state, id_t physicalPageId, id_t *logicalPageId);
+int8_t eraseDataBlock(embedDBState *state, id_t physicalPageId);
 int8_t embedDBInitDataFromFile(embedDBState *state);
 int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state);
 int8_t embedDBInitIndex(embedDBState *state);
@@ -326,92 +328,89 @@ int8_t embedDBInitData(embedDBState *state) {
     return 0;
 }
 
+/**
+ * @brief   Reads a data page during recovery and checks if it is a page that was written to that location.
+ *          The location may also contain a page that was never written or erased, so contains junk data.
+ * @param   state           embedDB algorithm state structure
+ * @param   physicalPageId  Physical page to read
+ * @param   logicalPageId   Return variable for the logical page id. Only valid if the page is.
+ * @return  Returns true if the page is valid, otherwise false
+ */
+bool readRecoveredDataPage(embedDBState *state, id_t physicalPageId, id_t *logicalPageId) {
+    if (physicalPageId >= state->numDataPages || readPage(state, physicalPageId) != 0) {
+        return false;
+    }
+
+    void *buffer = (int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_READ_BUFFER;
+    memcpy(logicalPageId, buffer, sizeof(id_t));
+    count_t numRecords = EMBEDDB_GET_COUNT(buffer);
+    return *logicalPageId % state->numDataPages == physicalPageId && numRecords > 0 && numRecords <= state->maxRecordsPerPage;
+}
+
+/**
+ * @brief   Erases the block of the data file which starts at the given page.
+ * @param   state           embedDB algorithm state structure
+ * @param   physicalPageId  First physical page of the block
+ * @return  Return 0 if success, -1 if error.
+ */
+int8_t eraseDataBlock(embedDBState *state, id_t physicalPageId) {
+    invalidateBufferedPages(&state->bufferedPageId, physicalPageId, physicalPageId + state->eraseSizeInPages);
+    int8_t eraseSuccess = state->fileInterface->erase(physicalPageId, physicalPageId + state->eraseSizeInPages, state->pageSize, state->dataFile);
+    if (eraseSuccess != 1) {
+#ifdef PRINT_ERRORS
+        printf("Error: Unable to erase the block starting at physical page %u in the data file!\n", physicalPageId);
+#endif
+        return -1;
+    }
+    return 0;
+}
+
 int8_t embedDBInitDataFromFile(embedDBState *state) {
     id_t logicalPageId = 0;
+    id_t minLogicalPageId = 0;
     id_t maxLogicalPageId = 0;
-    id_t physicalPageId = 0;
-    uint32_t count = 0;
     count_t blockSize = state->eraseSizeInPages;
-    bool validData = false;
-    bool hasData = false;
     void *buffer = (int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_READ_BUFFER;
 
-    /* This will become zero if there is no more to read */
-    int8_t moreToRead = !(readPage(state, physicalPageId));
-
-    /* this handles the case where the first page may have been erased, so has junk data and we actually need to start from the second page */
-    uint32_t i = 0;
-    count_t numRecords = 0;
-    while (moreToRead && i < 2) {
-        memcpy(&logicalPageId, buffer, sizeof(id_t));
-        validData = logicalPageId % state->numDataPages == count;
-        numRecords = EMBEDDB_GET_COUNT(buffer);
-        if (validData && numRecords > 0 && numRecords < state->maxRecordsPerPage + 1) {
-            hasData = true;
-            maxLogicalPageId = logicalPageId;
-            physicalPageId++;
-            updateMaxiumError(state, buffer);
-            count++;
-            i = 2;
-        } else {
-            physicalPageId += blockSize;
-            count += blockSize;
-        }
-        moreToRead = !(readPage(state, physicalPageId));
-        i++;
+    /* The first block may have been erased to make space for new data, so has junk data and we actually need to start from the second block */
+    id_t firstPhysicalPageId = 0;
+    if (!readRecoveredDataPage(state, firstPhysicalPageId, &minLogicalPageId)) {
+        firstPhysicalPageId = blockSize;
+        /* if we have no valid data, we just have an empty file can can start from the scratch */
+        if (!readRecoveredDataPage(state, firstPhysicalPageId, &minLogicalPageId))
+            return 0;
     }
 
-    /* if we have no valid data, we just have an empty file can can start from the scratch */
-    if (!hasData)
-        return 0;
-
-    while (moreToRead && count < state->numDataPages) {
-        memcpy(&logicalPageId, buffer, sizeof(id_t));
-        validData = logicalPageId % state->numDataPages == count;
-        if (validData && logicalPageId == maxLogicalPageId + 1) {
-            maxLogicalPageId = logicalPageId;
-            physicalPageId++;
-            updateMaxiumError(state, buffer);
-            moreToRead = !(readPage(state, physicalPageId));
-            count++;
-        } else {
-            break;
-        }
+    /* Find the last page that was written */
+    maxLogicalPageId = minLogicalPageId;
+    updateMaxiumError(state, buffer);
+    id_t physicalPageId = firstPhysicalPageId + 1;
+    while (readRecoveredDataPage(state, physicalPageId, &logicalPageId) && logicalPageId == maxLogicalPageId + 1) {
+        maxLogicalPageId = logicalPageId;
+        updateMaxiumError(state, buffer);
+        physicalPageId++;
     }
 
     /*
      * Now we need to find where the page with the smallest key that is still valid.
-     * The default case is we have not wrapped and the page number for the physical page with the smallest key is 0.
+     * The default case is that it is the first page of the file. If we have wrapped, the rest of the block we are writing to contains no data
+     * and the smallest key is on the first page of the next block.
      */
-    id_t physicalPageIDOfSmallestData = 0;
-
-    /* check if data exists at this location */
-    if (moreToRead && count < state->numDataPages) {
-        /* find where the next block boundary is */
-        id_t pagesToBlockBoundary = blockSize - (count % blockSize);
-
-        /* go to the next block boundary */
-        physicalPageId = (physicalPageId + pagesToBlockBoundary) % state->numDataPages;
-        moreToRead = !(readPage(state, physicalPageId));
-
-        /* there should have been more to read becuase the file should not be empty at this point if it was not empty at the previous block */
-        if (!moreToRead) {
-            return -1;
+    if (physicalPageId < state->numDataPages) {
+        id_t nextBlock = physicalPageId - physicalPageId % blockSize + blockSize;
+        id_t expectedLogicalPageId = maxLogicalPageId + 1 + (nextBlock - physicalPageId) - state->numDataPages;
+        if (readRecoveredDataPage(state, nextBlock, &logicalPageId) && logicalPageId == expectedLogicalPageId) {
+            minLogicalPageId = logicalPageId;
         }
 
-        /* check if data is valid or if it is junk */
-        memcpy(&logicalPageId, buffer, sizeof(id_t));
-        validData = logicalPageId % state->numDataPages == physicalPageId;
-
-        /* this means we have wrapped and our start is actually here */
-        if (validData) {
-            physicalPageIDOfSmallestData = physicalPageId;
+        /* If the last page of a block was written, we can not tell if the next block has already been erased, so make sure it is */
+        if (minLogicalPageId > 0 && physicalPageId % blockSize == 0 && eraseDataBlock(state, physicalPageId) != 0) {
+            return -1;
         }
     }
 
     state->nextDataPageId = maxLogicalPageId + 1;
-    readPage(state, physicalPageIDOfSmallestData);
-    memcpy(&(state->minDataPageId), buffer, sizeof(id_t));
+    state->minDataPageId = minLogicalPageId;
     state->numAvailDataPages = state->numDataPages + state->minDataPageId - maxLogicalPageId - 1;
 
     /* Put largest key back into the buffer */
@@ -426,114 +425,68 @@ int8_t embedDBInitDataFromFile(embedDBState *state) {
 
 int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
     id_t logicalPageId = 0;
+    id_t minLogicalPageId = 0;
     id_t maxLogicalPageId = 0;
     id_t physicalPageId = 0;
-    uint32_t count = 0;
     count_t blockSize = state->eraseSizeInPages;
-    bool validData = false;
     bool hasPermanentData = false;
     void *buffer = (int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_READ_BUFFER;
 
-    /* This will become zero if there is no more to read */
-    int8_t moreToRead = !(readPage(state, physicalPageId));
-
-    /* This handles the case that the first three pages may not have valid data in them.
-     * They may be either an erased page or pages for record-level consistency.
+    /* This handles the case that the first three blocks may not have valid data in them.
+     * They may be either an erased block or blocks for record-level consistency.
      */
-    uint32_t i = 0;
-    count_t numRecords = 0;
-    while (moreToRead && i < 4) {
-        memcpy(&logicalPageId, buffer, sizeof(id_t));
-        validData = logicalPageId % state->numDataPages == count;
-        numRecords = EMBEDDB_GET_COUNT(buffer);
-        if (validData && numRecords > 0 && numRecords < state->maxRecordsPerPage + 1) {
-            /* Setup for next loop so it does not have to worry about setting the initial values */
-            hasPermanentData = true;
-            maxLogicalPageId = logicalPageId;
-            physicalPageId++;
-            updateMaxiumError(state, buffer);
-            count++;
-            i = 4;
-        } else {
-            physicalPageId += blockSize;
-            count += blockSize;
-        }
-        moreToRead = !(readPage(state, physicalPageId));
-        i++;
+    for (uint32_t i = 0; i < 4 && !hasPermanentData; i++) {
+        physicalPageId = i * blockSize;
+        hasPermanentData = readRecoveredDataPage(state, physicalPageId, &minLogicalPageId);
     }
 
     if (hasPermanentData) {
-        while (moreToRead && count < state->numDataPages) {
-            memcpy(&logicalPageId, buffer, sizeof(id_t));
-            validData = logicalPageId % state->numDataPages == count;
-            if (validData && logicalPageId == maxLogicalPageId + 1) {
-                maxLogicalPageId = logicalPageId;
-                physicalPageId++;
-                updateMaxiumError(state, buffer);
-                moreToRead = !(readPage(state, physicalPageId));
-                count++;
-            } else {
-                break;
-            }
+        /* Find the last page that was written permanently */
+        maxLogicalPageId = minLogicalPageId;
+        updateMaxiumError(state, buffer);
+        physicalPageId++;
+        while (readRecoveredDataPage(state, physicalPageId, &logicalPageId) && logicalPageId == maxLogicalPageId + 1) {
+            maxLogicalPageId = logicalPageId;
+            updateMaxiumError(state, buffer);
+            physicalPageId++;
         }
+        physicalPageId %= state->numDataPages;
     } else {
         /* Case where the there is no permanent pages written, but we may still have record-level consistency records in block 2 */
-        count = 0;
         physicalPageId = 0;
     }
 
-    /* find where the next block boundary is */
-    id_t pagesToBlockBoundary = blockSize - (count % blockSize);
-    /* if we are on a block-boundary, we erase the next page in case the erase failed and then skip to the start of the next block */
-    if (pagesToBlockBoundary == blockSize) {
-        int8_t eraseSuccess = state->fileInterface->erase(count, count + blockSize, state->pageSize, state->dataFile);
-        if (!eraseSuccess) {
-#ifdef PRINT_ERRORS
-            printf("Error: Unable to erase data page during recovery!\n");
-#endif
-            return -1;
-        }
-        invalidateBufferedPages(&state->bufferedPageId, count, count + blockSize);
+    /* if we are on a block-boundary, we erase the next block in case the erase failed */
+    id_t nextLogicalPageId = hasPermanentData ? maxLogicalPageId + 1 : 0;
+    id_t nextPhysicalPageId = physicalPageId;
+    if (nextPhysicalPageId % blockSize == 0 && eraseDataBlock(state, nextPhysicalPageId) != 0) {
+        return -1;
     }
 
-    /* go to the next block boundary */
-    physicalPageId = (physicalPageId + pagesToBlockBoundary) % state->numDataPages;
-    state->rlcPhysicalStartingPage = physicalPageId;
-    state->nextRLCPhysicalPageLocation = physicalPageId;
+    /* the record-level consistency blocks start at the next block boundary */
+    state->rlcPhysicalStartingPage = (nextPhysicalPageId - nextPhysicalPageId % blockSize + blockSize) % state->numDataPages;
+    state->nextRLCPhysicalPageLocation = state->rlcPhysicalStartingPage;
 
-    /* record-level consistency recovery algorithm */
-    uint32_t numPagesRead = 0;
-    uint32_t numPagesToRead = blockSize * 2;
-    uint32_t rlcMaxLogicialPageNumber = UINT32_MAX;
-    uint32_t rlcMaxRecordCount = UINT32_MAX;
-    uint32_t rlcMaxPage = UINT32_MAX;
-    moreToRead = !(readPage(state, physicalPageId));
-    while (moreToRead && numPagesRead < numPagesToRead) {
+    /* record-level consistency recovery algorithm: find the page for the next logical page which has the most records */
+    uint32_t rlcMaxRecordCount = 0;
+    uint32_t rlcMaxPage = 0;
+    for (uint32_t i = 0; i < blockSize * 2; i++) {
+        physicalPageId = (state->rlcPhysicalStartingPage + i) % state->numDataPages;
+        if (readPage(state, physicalPageId) != 0) {
+            continue;
+        }
         memcpy(&logicalPageId, buffer, sizeof(id_t));
-        /* If the next logical page number is not the one after the max data page, we can just skip to the next page.
-         * We also need to read the page if there are no permanent records but the logicalPageId is zero, as this indicates we have record-level consistency records
-         */
-        if (logicalPageId == maxLogicalPageId + 1 || (logicalPageId == 0 && !hasPermanentData)) {
-            uint32_t numRecords = EMBEDDB_GET_COUNT(buffer);
-            if (rlcMaxRecordCount == UINT32_MAX || numRecords > rlcMaxRecordCount) {
-                rlcMaxRecordCount = numRecords;
-                rlcMaxLogicialPageNumber = logicalPageId;
-                rlcMaxPage = numPagesRead;
-            }
+        count_t numRecords = EMBEDDB_GET_COUNT(buffer);
+        if (logicalPageId == nextLogicalPageId && numRecords <= state->maxRecordsPerPage && numRecords > rlcMaxRecordCount) {
+            rlcMaxRecordCount = numRecords;
+            rlcMaxPage = i;
         }
-        physicalPageId = (physicalPageId + 1) % state->numDataPages;
-        moreToRead = !(readPage(state, physicalPageId));
-        numPagesRead++;
     }
 
-    /* need to find larged record-level consistency page to place back into the buffer and either one or both of the record-level consistency pages */
-    uint32_t eraseStartingPage = 0;
-    uint32_t eraseEndingPage = 0;
-    uint32_t numBlocksToErase = 0;
-    if (rlcMaxLogicialPageNumber == UINT32_MAX) {
-        eraseStartingPage = state->rlcPhysicalStartingPage % state->numDataPages;
-        numBlocksToErase = 2;
-    } else {
+    /* need to put the largest record-level consistency page back into the buffer and erase either one or both of the record-level consistency blocks */
+    id_t eraseStartingPage = state->rlcPhysicalStartingPage;
+    uint32_t numBlocksToErase = 2;
+    if (rlcMaxRecordCount > 0) {
         state->nextRLCPhysicalPageLocation = (state->rlcPhysicalStartingPage + rlcMaxPage + 1) % state->numDataPages;
         /* need to read the max page into read buffer again so we can copy into the write buffer */
         int8_t readSuccess = readPage(state, (state->rlcPhysicalStartingPage + rlcMaxPage) % state->numDataPages);
@@ -549,16 +502,10 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
     }
 
     for (uint32_t i = 0; i < numBlocksToErase; i++) {
-        eraseEndingPage = eraseStartingPage + blockSize;
-        int8_t eraseSuccess = state->fileInterface->erase(eraseStartingPage, eraseEndingPage, state->pageSize, state->dataFile);
-        if (!eraseSuccess) {
-#ifdef PRINT_ERRORS
-            printf("Error: Unable to erase pages in data file!\n");
-#endif
+        if (eraseDataBlock(state, eraseStartingPage) != 0) {
             return -1;
         }
-        invalidateBufferedPages(&state->bufferedPageId, eraseStartingPage, eraseEndingPage);
-        eraseStartingPage = eraseEndingPage % state->numDataPages;
+        eraseStartingPage = (eraseStartingPage + blockSize) % state->numDataPages;
     }
 
     /* if we don't have any permanent data, we can just return now that the record-level consistency records have been handled */
@@ -567,25 +514,16 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
     }
 
     /* Now check if we have wrapped after the record level consistency.
-     * The default case is we start at beginning of data file.
+     * The default case is we start at the first valid page in the data file.
      */
-    id_t physicalPageIDOfSmallestData = 0;
-
     physicalPageId = (state->rlcPhysicalStartingPage + 2 * blockSize) % state->numDataPages;
-    int8_t readSuccess = readPage(state, physicalPageId);
-    if (readSuccess == 0) {
-        memcpy(&logicalPageId, buffer, sizeof(id_t));
-        validData = logicalPageId % state->numDataPages == physicalPageId;
-
-        /* this means we have wrapped and our start is actually here */
-        if (validData) {
-            physicalPageIDOfSmallestData = physicalPageId;
-        }
+    id_t expectedLogicalPageId = nextLogicalPageId + (physicalPageId + state->numDataPages - nextPhysicalPageId) % state->numDataPages - state->numDataPages;
+    if (readRecoveredDataPage(state, physicalPageId, &logicalPageId) && logicalPageId == expectedLogicalPageId) {
+        minLogicalPageId = logicalPageId;
     }
 
-    state->nextDataPageId = maxLogicalPageId + 1;
-    readPage(state, physicalPageIDOfSmallestData);
-    memcpy(&(state->minDataPageId), buffer, sizeof(id_t));
+    state->nextDataPageId = nextLogicalPageId;
+    state->minDataPageId = minLogicalPageId;
     state->numAvailDataPages = state->numDataPages + state->minDataPageId - maxLogicalPageId - 1 - (2 * blockSize);
 
     /* Put largest key back into the buffer */
@@ -1202,8 +1140,7 @@ int8_t shiftRecordLevelConsistencyBlocks(embedDBState *state) {
 
     /* TODO: Likely an optimisation here where we don't always need to erase the second block, but that will make this algorithm more complicated and the savings could be minimal */
     uint32_t numRecordLevelConsistencyPages = state->eraseSizeInPages * 2;
-    uint32_t eraseStartingPage = state->rlcPhysicalStartingPage;
-    uint32_t eraseEndingPage = 0;
+    id_t eraseStartingPage = state->rlcPhysicalStartingPage;
 
     /* if we have wraped, we need to erase an additional block as the block we are shifting into is not empty */
     bool haveWrapped = (state->minDataPageId % state->numDataPages) == ((state->rlcPhysicalStartingPage + numRecordLevelConsistencyPages) % state->numDataPages);
@@ -1211,16 +1148,10 @@ int8_t shiftRecordLevelConsistencyBlocks(embedDBState *state) {
 
     /* Erase pages to make space for new data */
     for (size_t i = 0; i < numBlocksToErase; i++) {
-        eraseEndingPage = eraseStartingPage + state->eraseSizeInPages;
-        int8_t eraseSuccess = state->fileInterface->erase(eraseStartingPage, eraseEndingPage, state->pageSize, state->dataFile);
-        if (!eraseSuccess) {
-#ifdef PRINT_ERRORS
-            printf("Error: Unable to erase pages in data file when shifting record level consistency blocks!\n");
-#endif
+        if (eraseDataBlock(state, eraseStartingPage) != 0) {
             return -1;
         }
-        invalidateBufferedPages(&state->bufferedPageId, eraseStartingPage, eraseEndingPage);
-        eraseStartingPage = eraseEndingPage % state->numDataPages;
+        eraseStartingPage = (eraseStartingPage + state->eraseSizeInPages) % state->numDataPages;
     }
 
     /* shift min data page if needed */
@@ -2156,23 +2087,19 @@ int8_t writeTemporaryPage(embedDBState *state, void *buffer) {
         state->nextRLCPhysicalPageLocation = state->rlcPhysicalStartingPage;
     }
 
-    /* If in pageNum is second page in block, we erase the other record-level consistency block */
-    if (state->nextRLCPhysicalPageLocation % state->eraseSizeInPages == 1) {
-        uint32_t eraseStartingPage = state->rlcPhysicalStartingPage;
-        count_t blockSize = state->eraseSizeInPages;
+    /* If in pageNum is second page in block, we erase the other record-level consistency block. A block of a single page is erased right before it is written. */
+    if (state->eraseSizeInPages == 1) {
+        if (eraseDataBlock(state, state->nextRLCPhysicalPageLocation) != 0) {
+            return -2;
+        }
+    } else if (state->nextRLCPhysicalPageLocation % state->eraseSizeInPages == 1) {
+        id_t eraseStartingPage = state->rlcPhysicalStartingPage;
         if (state->nextRLCPhysicalPageLocation == eraseStartingPage + 1) {
-            eraseStartingPage = (eraseStartingPage + blockSize) % state->numDataPages;
+            eraseStartingPage = (eraseStartingPage + state->eraseSizeInPages) % state->numDataPages;
         }
-        uint32_t eraseEndingPage = eraseStartingPage + blockSize;
-
-        int8_t eraseSuccess = state->fileInterface->erase(eraseStartingPage, eraseEndingPage, state->pageSize, state->dataFile);
-        if (!eraseSuccess) {
-#ifdef PRINT_ERRORS
-            printf("Failed to erase block starting at physical page %i in the data file.", state->nextRLCPhysicalPageLocation);
-#endif
+        if (eraseDataBlock(state, eraseStartingPage) != 0) {
             return -2;
         }
-        invalidateBufferedPages(&state->bufferedPageId, eraseStartingPage, eraseEndingPage);
     }
 
     /* Write temporary page to storage */
-- 
2.43.0


From 6ff9c0a277853c59ee274aeefa1c870e1837b17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:56 +0000
Subject: [PATCH 09/45] fix: recover and read variable data in every state

The recovery of variable data took junk for data, and vice versa, and left a
given-up block unerased. embedDBNextVar used a stale page for records in the
write buffer, reading in chunks that end on a page boundary returned page
headers, and a lookup could trust a junk page that recovery left buffered.
---
 lib/Distribution/embedDB.c | 170 +++++++++++++++++++------------------
 src/embedDB/embedDB.c      | 170 +++++++++++++++++++------------------
 2 files changed, 178 insertions(+), 162 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index bff91ad..aa813a1 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -481,6 +481,7 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state);
 int8_t embedDBInitIndex(embedDBState *state);
 int8_t embedDBInitIndexFromFile(embedDBState *state);
 int8_t embedDBInitVarData(embedDBState *state);
+bool readRecoveredVarPage(embedDBState *state, id_t physicalPageId, id_t *logicalPageId);
 int8_t embedDBInitVarDataFromFile(embedDBState *state);
 int8_t shiftRecordLevelConsistencyBlocks(embedDBState *state);
 int8_t checkKeyOrder(embedDBState *state, void *key);
@@ -1097,97 +1098,86 @@ int8_t embedDBInitVarData(embedDBState *state) {
     return 0;
 }
 
+/**
+ * @brief   Reads a variable data page during recovery and checks if it is a page that was written to that location.
+ *          The location may also contain a page that was never written or erased, so contains junk data.
+ * @param   state           embedDB algorithm state structure
+ * @param   physicalPageId  Physical page to read
+ * @param   logicalPageId   Return variable for the logical page id. Only valid if the page is.
+ * @return  Returns true if the page is valid, otherwise false
+ */
+bool readRecoveredVarPage(embedDBState *state, id_t physicalPageId, id_t *logicalPageId) {
+    if (physicalPageId >= state->numVarPages || readVariablePage(state, physicalPageId) != 0) {
+        return false;
+    }
+
+    int8_t *buffer = (int8_t *)state->buffer + state->pageSize * EMBEDDB_VAR_READ_BUFFER(state->parameters);
+    memcpy(logicalPageId, buffer, sizeof(id_t));
+    if (*logicalPageId == 0) {
+        /* Since 0 is a valid first page and a valid record key, only a page which is entirely zero contains no data */
+        bool isEmpty = true;
+        for (uint32_t i = 0; i < state->pageSize && isEmpty; i++) {
+            isEmpty = buffer[i] == 0;
+        }
+        if (isEmpty) {
+            return false;
+        }
+    }
+    return *logicalPageId != UINT32_MAX && *logicalPageId % state->numVarPages == physicalPageId;
+}
+
 int8_t embedDBInitVarDataFromFile(embedDBState *state) {
     id_t logicalVariablePageId = 0;
+    id_t minVarPageId = 0;
     id_t maxLogicalVariablePageId = 0;
-    id_t physicalVariablePageId = 0;
-    id_t count = 0;
     count_t blockSize = state->eraseSizeInPages;
-    bool validData = false;
-    bool hasData = false;
     void *buffer = (int8_t *)state->buffer + state->pageSize * EMBEDDB_VAR_READ_BUFFER(state->parameters);
 
-    /* This will equal 0 if there are no pages to read */
-    int8_t moreToRead = !(readVariablePage(state, physicalVariablePageId));
-
-    /* this handles the case where the first page may have been erased, so has junk data and we actually need to start from the second page */
-    uint32_t i = 0;
-    while (moreToRead && i < 2) {
-        memcpy(&logicalVariablePageId, buffer, sizeof(id_t));
-        validData = logicalVariablePageId % state->numVarPages == count;
-        if (validData) {
-            uint64_t largestVarRecordId = 0;
-            /* Fetch the largest key value for which we have data on this page */
-            memcpy(&largestVarRecordId, (int8_t *)buffer + sizeof(id_t), state->keySize);
-            /*
-             * Since 0 is a valid first page and a valid record key, we may have a case where this data is valid.
-             * So we go to the next page to check if it is valid as well.
-             */
-            if (logicalVariablePageId != 0 || largestVarRecordId != 0) {
-                i = 2;
-                hasData = true;
-                maxLogicalVariablePageId = logicalVariablePageId;
-            }
-            physicalVariablePageId++;
-            count++;
-        } else {
-            id_t pagesToBlockBoundary = blockSize - (count % blockSize);
-            physicalVariablePageId += pagesToBlockBoundary;
-            count += pagesToBlockBoundary;
-            i++;
-        }
-        moreToRead = !(readVariablePage(state, physicalVariablePageId));
+    /* The first block may have been erased to make space for new data, so has junk data and we actually need to start from the second block */
+    id_t firstPhysicalPageId = 0;
+    if (!readRecoveredVarPage(state, firstPhysicalPageId, &minVarPageId)) {
+        firstPhysicalPageId = blockSize;
+        /* if we have no valid data, we just have an empty file can can start from the scratch */
+        if (!readRecoveredVarPage(state, firstPhysicalPageId, &minVarPageId))
+            return 0;
     }
 
-    /* if we have no valid data, we just have an empty file can can start from the scratch */
-    if (!hasData)
-        return 0;
-
-    while (moreToRead && count < state->numVarPages) {
-        memcpy(&logicalVariablePageId, buffer, sizeof(id_t));
-        validData = logicalVariablePageId % state->numVarPages == count;
-        if (validData && logicalVariablePageId == maxLogicalVariablePageId + 1) {
-            maxLogicalVariablePageId = logicalVariablePageId;
-            physicalVariablePageId++;
-            moreToRead = !(readVariablePage(state, physicalVariablePageId));
-            count++;
-        } else {
-            break;
-        }
+    /* Find the last page that was written */
+    maxLogicalVariablePageId = minVarPageId;
+    id_t physicalVariablePageId = firstPhysicalPageId + 1;
+    while (readRecoveredVarPage(state, physicalVariablePageId, &logicalVariablePageId) && logicalVariablePageId == maxLogicalVariablePageId + 1) {
+        maxLogicalVariablePageId = logicalVariablePageId;
+        physicalVariablePageId++;
     }
 
     /*
      * Now we need to find where the page with the smallest key that is still valid.
-     * The default case is we have not wrapped and the page number for the physical page with the smallest key is 0.
+     * The default case is that it is the first page of the file. If we have wrapped, the rest of the block we are writing to contains no data
+     * and the smallest key is on the first page of the next block.
      */
-    id_t physicalPageIDOfSmallestData = 0;
-
-    /* check if data exists at this location */
-    if (moreToRead && count < state->numVarPages) {
-        /* find where the next block boundary is */
-        id_t pagesToBlockBoundary = blockSize - (count % blockSize);
-
-        /* go to the next block boundary */
-        physicalVariablePageId = (physicalVariablePageId + pagesToBlockBoundary) % state->numVarPages;
-        moreToRead = !(readVariablePage(state, physicalVariablePageId));
-
-        /* there should have been more to read becuase the file should not be empty at this point if it was not empty at the previous block */
-        if (!moreToRead) {
-            return -1;
+    id_t physicalPageIDOfSmallestData = firstPhysicalPageId;
+    if (physicalVariablePageId < state->numVarPages) {
+        id_t nextBlock = physicalVariablePageId - physicalVariablePageId % blockSize + blockSize;
+        id_t expectedLogicalPageId = maxLogicalVariablePageId + 1 + (nextBlock - physicalVariablePageId) - state->numVarPages;
+        if (readRecoveredVarPage(state, nextBlock, &logicalVariablePageId) && logicalVariablePageId == expectedLogicalPageId) {
+            physicalPageIDOfSmallestData = nextBlock;
+            minVarPageId = logicalVariablePageId;
         }
 
-        /* check if data is valid or if it is junk */
-        memcpy(&logicalVariablePageId, buffer, sizeof(id_t));
-        validData = logicalVariablePageId % state->numVarPages == physicalVariablePageId;
-
-        /* this means we have wrapped and our start is actually here */
-        if (validData) {
-            physicalPageIDOfSmallestData = physicalVariablePageId;
+        /* If the last page of a block was written, we can not tell if the next block has already been erased, so make sure it is */
+        if (minVarPageId > 0 && physicalVariablePageId % blockSize == 0) {
+            invalidateBufferedPages(&state->bufferedVarPage, physicalVariablePageId, physicalVariablePageId + blockSize);
+            int8_t eraseResult = state->fileInterface->erase(physicalVariablePageId, physicalVariablePageId + blockSize, state->pageSize, state->varFile);
+            if (eraseResult != 1) {
+#ifdef PRINT_ERRORS
+                printf("Error: Unable to erase the block starting at physical page %u in the variable data file!\n", physicalVariablePageId);
+#endif
+                return -1;
+            }
         }
     }
 
     state->nextVarPageId = maxLogicalVariablePageId + 1;
-    id_t minVarPageId = 0;
     int8_t readResult = readVariablePage(state, physicalPageIDOfSmallestData);
     if (readResult != 0) {
 #ifdef PRINT_ERRORS
@@ -1196,8 +1186,6 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
         return -1;
     }
 
-    memcpy(&minVarPageId, buffer, sizeof(id_t));
-
     /* If the smallest varPageId is 0, nothing was ever overwritten, so we have all the data */
     if (minVarPageId == 0) {
         void *dataBuffer;
@@ -1867,10 +1855,13 @@ int8_t splineSearch(embedDBState *state, void *buffer, void *key) {
         location = (lowbound + highbound) / 2;
     }
 
-    // Check if the currently buffered page is the correct one. The bounds are logical page ids, so use the id in the header of the page
+    // Check if the currently buffered page is the correct one. The bounds are logical page ids, so use the id in the header of the page if it is a page with data
     id_t bufferedLogicalPageId = 0;
     memcpy(&bufferedLogicalPageId, buffer, sizeof(id_t));
     if (!(state->bufferedPageId != (id_t)-1 &&
+          bufferedLogicalPageId % state->numDataPages == state->bufferedPageId &&
+          bufferedLogicalPageId >= state->minDataPageId &&
+          bufferedLogicalPageId < state->nextDataPageId &&
           lowbound <= bufferedLogicalPageId &&
           highbound >= bufferedLogicalPageId &&
           state->compareKey(embedDBGetMinKey(state, buffer), key) <= 0 &&
@@ -2004,7 +1995,9 @@ int8_t embedDBGetVar(embedDBState *state, void *key, void *data, embedDBVarDataS
     // if there are records found in the output buffer
     if (recordNum != NO_RECORD_FOUND) {
         // flush variable record buffer to storage to read later on
-        embedDBFlushVar(state);
+        if (embedDBFlushVar(state) != 0) {
+            return -1;
+        }
         // copy contents of write buffer to read buffer for embedDBSetupVarDataStream()
         readToWriteBuf(state);
         // else if there are records in the file system, mem cpy fixed record into data
@@ -2128,6 +2121,14 @@ int8_t embedDBFlush(embedDBState *state) {
         return -1;
     }
 
+    // The last variable data page may have been full, so was written before
+    if (EMBEDDB_USING_VDATA(state->parameters) && state->fileInterface->flush(state->varFile) == 0) {
+#ifdef PRINT_ERRORS
+        printf("Failed to flush the variable data file during embedDBFlush.");
+#endif
+        return -1;
+    }
+
     if (state->fileInterface->flush(state->dataFile) == 0) {
 #ifdef PRINT_ERRORS
         printf("Failed to flush the data file during embedDBFlush.");
@@ -2274,10 +2275,12 @@ int8_t embedDBNextVar(embedDBState *state, embedDBIterator *it, void *key, void
         return 0;
     }
 
-    void *outputBuffer = (int8_t *)state->buffer;
-    if (it->nextDataPage == 0 && (EMBEDDB_GET_COUNT(outputBuffer) > 0)) {
+    if (it->nextDataPage == state->nextDataPageId) {
+        // the record is in the write buffer, so its variable data may not be on storage yet
+        if (embedDBFlushVar(state) != 0) {
+            return 0;
+        }
         readToWriteBuf(state);
-        embedDBFlushVar(state);
     }
 
     // Get the vardata address from the record
@@ -2314,7 +2317,7 @@ int8_t embedDBSetupVarDataStream(embedDBState *state, void *key, embedDBVarDataS
     }
 
     // Check if the variable data associated with this key has been overwritten due to file wrap around
-    if (state->compareKey(key, &state->minVarRecordId) < 0) {
+    if (state->minVarRecordId == UINT64_MAX || state->compareKey(key, &state->minVarRecordId) < 0) {
         *varData = NULL;
         return 1;
     }
@@ -2378,6 +2381,11 @@ uint32_t embedDBVarDataStreamRead(embedDBState *state, embedDBVarDataStream *str
         return 0;
     }
 
+    // The last read may have ended on a page boundary, so we need to move past the header
+    if (stream->bytesRead < stream->totalBytes && stream->fileOffset % state->pageSize == 0) {
+        stream->fileOffset += state->variableDataHeaderSize;
+    }
+
     // Read in var page containing the data to read
     uint32_t pageNum = (stream->fileOffset / state->pageSize) % state->numVarPages;
     if (readVariablePage(state, pageNum) != 0) {
@@ -2405,7 +2413,7 @@ uint32_t embedDBVarDataStreamRead(embedDBState *state, embedDBVarDataStream *str
 #ifdef PRINT_ERRORS
                 printf("ERROR: Couldn't read variable data page %d\n", pageNum);
 #endif
-                return 0;
+                return amtRead;
             }
             // Skip past the header
             stream->fileOffset += state->variableDataHeaderSize;
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index bfbea16..ebe13c0 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -57,6 +57,7 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state);
 int8_t embedDBInitIndex(embedDBState *state);
 int8_t embedDBInitIndexFromFile(embedDBState *state);
 int8_t embedDBInitVarData(embedDBState *state);
+bool readRecoveredVarPage(embedDBState *state, id_t physicalPageId, id_t *logicalPageId);
 int8_t embedDBInitVarDataFromFile(embedDBState *state);
 int8_t shiftRecordLevelConsistencyBlocks(embedDBState *state);
 int8_t checkKeyOrder(embedDBState *state, void *key);
@@ -673,97 +674,86 @@ int8_t embedDBInitVarData(embedDBState *state) {
     return 0;
 }
 
+/**
+ * @brief   Reads a variable data page during recovery and checks if it is a page that was written to that location.
+ *          The location may also contain a page that was never written or erased, so contains junk data.
+ * @param   state           embedDB algorithm state structure
+ * @param   physicalPageId  Physical page to read
+ * @param   logicalPageId   Return variable for the logical page id. Only valid if the page is.
+ * @return  Returns true if the page is valid, otherwise false
+ */
+bool readRecoveredVarPage(embedDBState *state, id_t physicalPageId, id_t *logicalPageId) {
+    if (physicalPageId >= state->numVarPages || readVariablePage(state, physicalPageId) != 0) {
+        return false;
+    }
+
+    int8_t *buffer = (int8_t *)state->buffer + state->pageSize * EMBEDDB_VAR_READ_BUFFER(state->parameters);
+    memcpy(logicalPageId, buffer, sizeof(id_t));
+    if (*logicalPageId == 0) {
+        /* Since 0 is a valid first page and a valid record key, only a page which is entirely zero contains no data */
+        bool isEmpty = true;
+        for (uint32_t i = 0; i < state->pageSize && isEmpty; i++) {
+            isEmpty = buffer[i] == 0;
+        }
+        if (isEmpty) {
+            return false;
+        }
+    }
+    return *logicalPageId != UINT32_MAX && *logicalPageId % state->numVarPages == physicalPageId;
+}
+
 int8_t embedDBInitVarDataFromFile(embedDBState *state) {
     id_t logicalVariablePageId = 0;
+    id_t minVarPageId = 0;
     id_t maxLogicalVariablePageId = 0;
-    id_t physicalVariablePageId = 0;
-    id_t count = 0;
     count_t blockSize = state->eraseSizeInPages;
-    bool validData = false;
-    bool hasData = false;
     void *buffer = (int8_t *)state->buffer + state->pageSize * EMBEDDB_VAR_READ_BUFFER(state->parameters);
 
-    /* This will equal 0 if there are no pages to read */
-    int8_t moreToRead = !(readVariablePage(state, physicalVariablePageId));
-
-    /* this handles the case where the first page may have been erased, so has junk data and we actually need to start from the second page */
-    uint32_t i = 0;
-    while (moreToRead && i < 2) {
-        memcpy(&logicalVariablePageId, buffer, sizeof(id_t));
-        validData = logicalVariablePageId % state->numVarPages == count;
-        if (validData) {
-            uint64_t largestVarRecordId = 0;
-            /* Fetch the largest key value for which we have data on this page */
-            memcpy(&largestVarRecordId, (int8_t *)buffer + sizeof(id_t), state->keySize);
-            /*
-             * Since 0 is a valid first page and a valid record key, we may have a case where this data is valid.
-             * So we go to the next page to check if it is valid as well.
-             */
-            if (logicalVariablePageId != 0 || largestVarRecordId != 0) {
-                i = 2;
-                hasData = true;
-                maxLogicalVariablePageId = logicalVariablePageId;
-            }
-            physicalVariablePageId++;
-            count++;
-        } else {
-            id_t pagesToBlockBoundary = blockSize - (count % blockSize);
-            physicalVariablePageId += pagesToBlockBoundary;
-            count += pagesToBlockBoundary;
-            i++;
-        }
-        moreToRead = !(readVariablePage(state, physicalVariablePageId));
+    /* The first block may have been erased to make space for new data, so has junk data and we actually need to start from the second block */
+    id_t firstPhysicalPageId = 0;
+    if (!readRecoveredVarPage(state, firstPhysicalPageId, &minVarPageId)) {
+        firstPhysicalPageId = blockSize;
+        /* if we have no valid data, we just have an empty file can can start from the scratch */
+        if (!readRecoveredVarPage(state, firstPhysicalPageId, &minVarPageId))
+            return 0;
     }
 
-    /* if we have no valid data, we just have an empty file can can start from the scratch */
-    if (!hasData)
-        return 0;
-
-    while (moreToRead && count < state->numVarPages) {
-        memcpy(&logicalVariablePageId, buffer, sizeof(id_t));
-        validData = logicalVariablePageId % state->numVarPages == count;
-        if (validData && logicalVariablePageId == maxLogicalVariablePageId + 1) {
-            maxLogicalVariablePageId = logicalVariablePageId;
-            physicalVariablePageId++;
-            moreToRead = !(readVariablePage(state, physicalVariablePageId));
-            count++;
-        } else {
-            break;
-        }
+    /* Find the last page that was written */
+    maxLogicalVariablePageId = minVarPageId;
+    id_t physicalVariablePageId = firstPhysicalPageId + 1;
+    while (readRecoveredVarPage(state, physicalVariablePageId, &logicalVariablePageId) && logicalVariablePageId == maxLogicalVariablePageId + 1) {
+        maxLogicalVariablePageId = logicalVariablePageId;
+        physicalVariablePageId++;
     }
 
     /*
      * Now we need to find where the page with the smallest key that is still valid.
-     * The default case is we have not wrapped and the page number for the physical page with the smallest key is 0.
+     * The default case is that it is the first page of the file. If we have wrapped, the rest of the block we are writing to contains no data
+     * and the smallest key is on the first page of the next block.
      */
-    id_t physicalPageIDOfSmallestData = 0;
-
-    /* check if data exists at this location */
-    if (moreToRead && count < state->numVarPages) {
-        /* find where the next block boundary is */
-        id_t pagesToBlockBoundary = blockSize - (count % blockSize);
-
-        /* go to the next block boundary */
-        physicalVariablePageId = (physicalVariablePageId + pagesToBlockBoundary) % state->numVarPages;
-        moreToRead = !(readVariablePage(state, physicalVariablePageId));
-
-        /* there should have been more to read becuase the file should not be empty at this point if it was not empty at the previous block */
-        if (!moreToRead) {
-            return -1;
+    id_t physicalPageIDOfSmallestData = firstPhysicalPageId;
+    if (physicalVariablePageId < state->numVarPages) {
+        id_t nextBlock = physicalVariablePageId - physicalVariablePageId % blockSize + blockSize;
+        id_t expectedLogicalPageId = maxLogicalVariablePageId + 1 + (nextBlock - physicalVariablePageId) - state->numVarPages;
+        if (readRecoveredVarPage(state, nextBlock, &logicalVariablePageId) && logicalVariablePageId == expectedLogicalPageId) {
+            physicalPageIDOfSmallestData = nextBlock;
+            minVarPageId = logicalVariablePageId;
         }
 
-        /* check if data is valid or if it is junk */
-        memcpy(&logicalVariablePageId, buffer, sizeof(id_t));
-        validData = logicalVariablePageId % state->numVarPages == physicalVariablePageId;
-
-        /* this means we have wrapped and our start is actually here */
-        if (validData) {
-            physicalPageIDOfSmallestData = physicalVariablePageId;
+        /* If the last page of a block was written, we can not tell if the next block has already been erased, so make sure it is */
+        if (minVarPageId > 0 && physicalVariablePageId % blockSize == 0) {
+            invalidateBufferedPages(&state->bufferedVarPage, physicalVariablePageId, physicalVariablePageId + blockSize);
+            int8_t eraseResult = state->fileInterface->erase(physicalVariablePageId, physicalVariablePageId + blockSize, state->pageSize, state->varFile);
+            if (eraseResult != 1) {
+#ifdef PRINT_ERRORS
+                printf("Error: Unable to erase the block starting at physical page %u in the variable data file!\n", physicalVariablePageId);
+#endif
+                return -1;
+            }
         }
     }
 
     state->nextVarPageId = maxLogicalVariablePageId + 1;
-    id_t minVarPageId = 0;
     int8_t readResult = readVariablePage(state, physicalPageIDOfSmallestData);
     if (readResult != 0) {
 #ifdef PRINT_ERRORS
@@ -772,8 +762,6 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
         return -1;
     }
 
-    memcpy(&minVarPageId, buffer, sizeof(id_t));
-
     /* If the smallest varPageId is 0, nothing was ever overwritten, so we have all the data */
     if (minVarPageId == 0) {
         void *dataBuffer;
@@ -1443,10 +1431,13 @@ int8_t splineSearch(embedDBState *state, void *buffer, void *key) {
         location = (lowbound + highbound) / 2;
     }
 
-    // Check if the currently buffered page is the correct one. The bounds are logical page ids, so use the id in the header of the page
+    // Check if the currently buffered page is the correct one. The bounds are logical page ids, so use the id in the header of the page if it is a page with data
     id_t bufferedLogicalPageId = 0;
     memcpy(&bufferedLogicalPageId, buffer, sizeof(id_t));
     if (!(state->bufferedPageId != (id_t)-1 &&
+          bufferedLogicalPageId % state->numDataPages == state->bufferedPageId &&
+          bufferedLogicalPageId >= state->minDataPageId &&
+          bufferedLogicalPageId < state->nextDataPageId &&
           lowbound <= bufferedLogicalPageId &&
           highbound >= bufferedLogicalPageId &&
           state->compareKey(embedDBGetMinKey(state, buffer), key) <= 0 &&
@@ -1580,7 +1571,9 @@ int8_t embedDBGetVar(embedDBState *state, void *key, void *data, embedDBVarDataS
     // if there are records found in the output buffer
     if (recordNum != NO_RECORD_FOUND) {
         // flush variable record buffer to storage to read later on
-        embedDBFlushVar(state);
+        if (embedDBFlushVar(state) != 0) {
+            return -1;
+        }
         // copy contents of write buffer to read buffer for embedDBSetupVarDataStream()
         readToWriteBuf(state);
         // else if there are records in the file system, mem cpy fixed record into data
@@ -1704,6 +1697,14 @@ int8_t embedDBFlush(embedDBState *state) {
         return -1;
     }
 
+    // The last variable data page may have been full, so was written before
+    if (EMBEDDB_USING_VDATA(state->parameters) && state->fileInterface->flush(state->varFile) == 0) {
+#ifdef PRINT_ERRORS
+        printf("Failed to flush the variable data file during embedDBFlush.");
+#endif
+        return -1;
+    }
+
     if (state->fileInterface->flush(state->dataFile) == 0) {
 #ifdef PRINT_ERRORS
         printf("Failed to flush the data file during embedDBFlush.");
@@ -1850,10 +1851,12 @@ int8_t embedDBNextVar(embedDBState *state, embedDBIterator *it, void *key, void
         return 0;
     }
 
-    void *outputBuffer = (int8_t *)state->buffer;
-    if (it->nextDataPage == 0 && (EMBEDDB_GET_COUNT(outputBuffer) > 0)) {
+    if (it->nextDataPage == state->nextDataPageId) {
+        // the record is in the write buffer, so its variable data may not be on storage yet
+        if (embedDBFlushVar(state) != 0) {
+            return 0;
+        }
         readToWriteBuf(state);
-        embedDBFlushVar(state);
     }
 
     // Get the vardata address from the record
@@ -1890,7 +1893,7 @@ int8_t embedDBSetupVarDataStream(embedDBState *state, void *key, embedDBVarDataS
     }
 
     // Check if the variable data associated with this key has been overwritten due to file wrap around
-    if (state->compareKey(key, &state->minVarRecordId) < 0) {
+    if (state->minVarRecordId == UINT64_MAX || state->compareKey(key, &state->minVarRecordId) < 0) {
         *varData = NULL;
         return 1;
     }
@@ -1954,6 +1957,11 @@ uint32_t embedDBVarDataStreamRead(embedDBState *state, embedDBVarDataStream *str
         return 0;
     }
 
+    // The last read may have ended on a page boundary, so we need to move past the header
+    if (stream->bytesRead < stream->totalBytes && stream->fileOffset % state->pageSize == 0) {
+        stream->fileOffset += state->variableDataHeaderSize;
+    }
+
     // Read in var page containing the data to read
     uint32_t pageNum = (stream->fileOffset / state->pageSize) % state->numVarPages;
     if (readVariablePage(state, pageNum) != 0) {
@@ -1981,7 +1989,7 @@ uint32_t embedDBVarDataStreamRead(embedDBState *state, embedDBVarDataStream *str
 #ifdef PRINT_ERRORS
                 printf("ERROR: Couldn't read variable data page %d\n", pageNum);
 #endif
-                return 0;
+                return amtRead;
             }
             // Skip past the header
             stream->fileOffset += state->variableDataHeaderSize;
-- 
2.43.0


From 23f96121283babd4395c04e2393febfaf5bc6612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:06 +0000
Subject: [PATCH 10/45] fix: find the index record of a data page by the pages
 it covers

Index pages are written partially filled by a flush, so the position of a
record can not be calculated. The write buffer is not indexed at all. The
recovery of the index took junk for pages and could leave the next write
erasing outside the page area.
---
 lib/Distribution/embedDB.c | 192 +++++++++++++++++++++++++------------
 src/embedDB/embedDB.c      | 190 ++++++++++++++++++++++++------------
 2 files changed, 259 insertions(+), 123 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index aa813a1..d9a780f 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -479,7 +479,9 @@ int8_t eraseDataBlock(embedDBState *state, id_t physicalPageId);
 int8_t embedDBInitDataFromFile(embedDBState *state);
 int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state);
 int8_t embedDBInitIndex(embedDBState *state);
+bool readRecoveredIndexPage(embedDBState *state, id_t physicalPageId, id_t *logicalPageId);
 int8_t embedDBInitIndexFromFile(embedDBState *state);
+bool findIndexRecord(embedDBState *state, id_t dataPage, void **bitmap);
 int8_t embedDBInitVarData(embedDBState *state);
 bool readRecoveredVarPage(embedDBState *state, id_t physicalPageId, id_t *logicalPageId);
 int8_t embedDBInitVarDataFromFile(embedDBState *state);
@@ -1030,42 +1032,62 @@ int8_t embedDBInitIndex(embedDBState *state) {
     return 0;
 }
 
+/**
+ * @brief   Reads an index page during recovery and checks if it is a page that was written to that location.
+ *          The location may also contain a page that was never written or erased, so contains junk data.
+ * @param   state           embedDB algorithm state structure
+ * @param   physicalPageId  Physical page to read
+ * @param   logicalPageId   Return variable for the logical page id. Only valid if the page is.
+ * @return  Returns true if the page is valid, otherwise false
+ */
+bool readRecoveredIndexPage(embedDBState *state, id_t physicalPageId, id_t *logicalPageId) {
+    if (physicalPageId >= state->numIndexPages || readIndexPage(state, physicalPageId) != 0) {
+        return false;
+    }
+
+    void *buffer = (int8_t *)state->buffer + state->pageSize * EMBEDDB_INDEX_READ_BUFFER;
+    memcpy(logicalPageId, buffer, sizeof(id_t));
+    count_t numRecords = EMBEDDB_GET_COUNT(buffer);
+    return *logicalPageId % state->numIndexPages == physicalPageId && numRecords > 0 && numRecords <= state->maxIdxRecordsPerPage;
+}
+
 int8_t embedDBInitIndexFromFile(embedDBState *state) {
     id_t logicalIndexPageId = 0;
-    id_t maxLogicaIndexPageId = 0;
-    id_t physicalIndexPageId = 0;
-
-    /* This will become zero if there is no more to read */
-    int8_t moreToRead = !(readIndexPage(state, physicalIndexPageId));
+    id_t minLogicalIndexPageId = 0;
+    id_t maxLogicalIndexPageId = 0;
+    count_t blockSize = state->eraseSizeInPages;
 
-    bool haveWrappedInMemory = false;
-    int count = 0;
-    void *buffer = (int8_t *)state->buffer + state->pageSize * EMBEDDB_INDEX_READ_BUFFER;
+    /* The first block may have been erased to make space for new index pages, so we may need to start from the second block */
+    id_t firstPhysicalPageId = 0;
+    if (!readRecoveredIndexPage(state, firstPhysicalPageId, &minLogicalIndexPageId)) {
+        firstPhysicalPageId = blockSize;
+        /* if there is no valid index page, we can start from scratch. Data pages that are not indexed are always read */
+        if (!readRecoveredIndexPage(state, firstPhysicalPageId, &minLogicalIndexPageId))
+            return 0;
+    }
 
-    while (moreToRead && count < state->numIndexPages) {
-        memcpy(&logicalIndexPageId, buffer, sizeof(id_t));
-        if (count == 0 || logicalIndexPageId == maxLogicaIndexPageId + 1) {
-            maxLogicaIndexPageId = logicalIndexPageId;
-            physicalIndexPageId++;
-            moreToRead = !(readIndexPage(state, physicalIndexPageId));
-            count++;
-        } else {
-            haveWrappedInMemory = logicalIndexPageId == maxLogicaIndexPageId - state->numIndexPages + 1;
-            break;
+    /* Find the last page that was written */
+    maxLogicalIndexPageId = minLogicalIndexPageId;
+    id_t physicalIndexPageId = firstPhysicalPageId + 1;
+    while (readRecoveredIndexPage(state, physicalIndexPageId, &logicalIndexPageId) && logicalIndexPageId == maxLogicalIndexPageId + 1) {
+        maxLogicalIndexPageId = logicalIndexPageId;
+        physicalIndexPageId++;
+    }
+
+    /* If we have wrapped, the oldest index page is the next one. If it has been erased, so has the rest of its block and the oldest one is the first page of the next block */
+    if (physicalIndexPageId < state->numIndexPages) {
+        id_t nextBlock = physicalIndexPageId - physicalIndexPageId % blockSize + blockSize;
+        id_t expectedLogicalPageId = maxLogicalIndexPageId + 1 - state->numIndexPages;
+        if (readRecoveredIndexPage(state, physicalIndexPageId, &logicalIndexPageId) && logicalIndexPageId == expectedLogicalPageId) {
+            minLogicalIndexPageId = logicalIndexPageId;
+        } else if (readRecoveredIndexPage(state, nextBlock, &logicalIndexPageId) && logicalIndexPageId == expectedLogicalPageId + (nextBlock - physicalIndexPageId)) {
+            minLogicalIndexPageId = logicalIndexPageId;
         }
     }
 
-    if (count == 0)
-        return 0;
-
-    state->nextIdxPageId = maxLogicaIndexPageId + 1;
-    id_t physicalPageIDOfSmallestData = 0;
-    if (haveWrappedInMemory) {
-        physicalPageIDOfSmallestData = logicalIndexPageId % state->numIndexPages;
-    }
-    readIndexPage(state, physicalPageIDOfSmallestData);
-    memcpy(&(state->minIndexPageId), buffer, sizeof(id_t));
-    state->numAvailIndexPages = state->numIndexPages + state->minIndexPageId - maxLogicaIndexPageId - 1;
+    state->nextIdxPageId = maxLogicalIndexPageId + 1;
+    state->minIndexPageId = minLogicalIndexPageId;
+    state->numAvailIndexPages = state->numIndexPages + state->minIndexPageId - maxLogicalIndexPageId - 1;
 
     return 0;
 }
@@ -2168,6 +2190,66 @@ int8_t embedDBFlush(embedDBState *state) {
     return 0;
 }
 
+/**
+ * @brief	Finds the bitmap of a data page in the index pages on storage.
+ * @param	state	    embedDB algorithm state structure
+ * @param	dataPage	Logical id of the data page
+ * @param	bitmap	    Return variable for the location of the bitmap in the index read buffer
+ * @return	Returns true if the data page is indexed, otherwise false
+ */
+bool findIndexRecord(embedDBState *state, id_t dataPage, void **bitmap) {
+    int8_t *buffer = (int8_t *)state->buffer + EMBEDDB_INDEX_READ_BUFFER * state->pageSize;
+    id_t low = state->minIndexPageId, high = state->nextIdxPageId;
+    if (low >= high) {
+        return false;
+    }
+
+    /* As index pages may be written before they are full, search for the page. Start with the one in the buffer as it or its successor often is the right one */
+    id_t logicalPageId = 0, firstDataPage = 0;
+    id_t indexPage = dataPage / state->maxIdxRecordsPerPage;
+    if (state->bufferedIndexPageId != (id_t)-1) {
+        memcpy(&logicalPageId, buffer, sizeof(id_t));
+        if (logicalPageId % state->numIndexPages == state->bufferedIndexPageId) {
+            indexPage = logicalPageId;
+        }
+    }
+    if (indexPage < low) {
+        indexPage = low;
+    } else if (indexPage >= high) {
+        indexPage = high - 1;
+    }
+
+    bool firstTry = true;
+    while (low < high) {
+        if (readIndexPage(state, indexPage % state->numIndexPages) != 0) {
+#ifdef PRINT_ERRORS
+            printf("ERROR: Failed to read index page %i (%i)\n", indexPage, indexPage % state->numIndexPages);
+#endif
+            return false;
+        }
+
+        memcpy(&logicalPageId, buffer, sizeof(id_t));
+        memcpy(&firstDataPage, buffer + 8, sizeof(id_t));
+        count_t count = EMBEDDB_GET_COUNT(buffer);
+        if (logicalPageId != indexPage || count > state->maxIdxRecordsPerPage) {
+            return false;
+        }
+
+        if (dataPage < firstDataPage) {
+            high = indexPage;
+            indexPage = low + (high - low) / 2;
+        } else if (dataPage - firstDataPage >= count) {
+            low = indexPage + 1;
+            indexPage = firstTry ? low : low + (high - low) / 2;
+        } else {
+            *bitmap = buffer + EMBEDDB_IDX_HEADER_SIZE + (dataPage - firstDataPage) * state->bitmapSize;
+            return true;
+        }
+        firstTry = false;
+    }
+    return false;
+}
+
 /**
  * @brief	Return next key, data pair for iterator.
  * @param	state	embedDB algorithm state structure
@@ -2186,31 +2268,14 @@ int8_t embedDBNext(embedDBState *state, embedDBIterator *it, void *key, void *da
             searchWriteBuf = 1;
         }
 
-        // If we are just starting to read a new page and we have a query bitmap
-        if (it->nextDataRec == 0 && it->queryBitmap != NULL) {
-            // Find what index page determines if we should read the data page
-            uint32_t indexPage = it->nextDataPage / state->maxIdxRecordsPerPage;
-            uint16_t indexRec = it->nextDataPage % state->maxIdxRecordsPerPage;
-
-            if (state->indexFile != NULL && indexPage >= state->minIndexPageId && indexPage < state->nextIdxPageId) {
-                // If the index page that contains this data page exists, else we must read the data page regardless cause we don't have the index saved for it
-
-                if (readIndexPage(state, indexPage % state->numIndexPages) != 0) {
-#ifdef PRINT_ERRORS
-                    printf("ERROR: Failed to read index page %i (%i)\n", indexPage, indexPage % state->numIndexPages);
-#endif
-                    return 0;
-                }
-
-                // Get bitmap for data page in question
-                void *indexBM = (int8_t *)state->buffer + EMBEDDB_INDEX_READ_BUFFER * state->pageSize + EMBEDDB_IDX_HEADER_SIZE + indexRec * state->bitmapSize;
-
-                // Determine if we should read the data page
-                if (!bitmapOverlap(it->queryBitmap, indexBM, state->bitmapSize)) {
-                    // Do not read this data page, try the next one
-                    it->nextDataPage++;
-                    continue;
-                }
+        // If we are just starting to read a new page and we have a query bitmap, check if the index tells us that we do not need to read the data page
+        // If the data page is not indexed, we must read the data page regardless cause we don't have the index saved for it
+        if (searchWriteBuf == 0 && it->nextDataRec == 0 && it->queryBitmap != NULL && state->indexFile != NULL) {
+            void *indexBM = NULL;
+            if (findIndexRecord(state, it->nextDataPage, &indexBM) && !bitmapOverlap(it->queryBitmap, indexBM, state->bitmapSize)) {
+                // Do not read this data page, try the next one
+                it->nextDataPage++;
+                continue;
             }
         }
 
@@ -2593,17 +2658,20 @@ id_t writeIndexPage(embedDBState *state, void *buffer) {
     memcpy(buffer, &(pageNum), sizeof(id_t));
 
     if (state->numAvailIndexPages <= 0) {
-        // Erase index pages to make room for new page
-        int8_t eraseResult = state->fileInterface->erase(physicalPageNumber, physicalPageNumber + state->eraseSizeInPages, state->pageSize, state->indexFile);
-        if (eraseResult != 1) {
+        // Erase index pages to make room for new page. Inside a block this was done with its first page, so after a recovery the old pages only seem to exist
+        count_t pagesInBlock = state->eraseSizeInPages - physicalPageNumber % state->eraseSizeInPages;
+        if (pagesInBlock == state->eraseSizeInPages) {
+            int8_t eraseResult = state->fileInterface->erase(physicalPageNumber, physicalPageNumber + state->eraseSizeInPages, state->pageSize, state->indexFile);
+            if (eraseResult != 1) {
 #ifdef PRINT_ERRORS
-            printf("Failed to erase data page: %i (%i)\n", pageNum, physicalPageNumber);
+                printf("Failed to erase data page: %i (%i)\n", pageNum, physicalPageNumber);
 #endif
-            return -1;
+                return -1;
+            }
         }
-        invalidateBufferedPages(&state->bufferedIndexPageId, physicalPageNumber, physicalPageNumber + state->eraseSizeInPages);
-        state->numAvailIndexPages += state->eraseSizeInPages;
-        state->minIndexPageId += state->eraseSizeInPages;
+        invalidateBufferedPages(&state->bufferedIndexPageId, physicalPageNumber, physicalPageNumber + pagesInBlock);
+        state->numAvailIndexPages += pagesInBlock;
+        state->minIndexPageId += pagesInBlock;
     }
 
     /* Seek to page location in file */
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index ebe13c0..c885d8b 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -55,7 +55,9 @@ int8_t eraseDataBlock(embedDBState *state, id_t physicalPageId);
 int8_t embedDBInitDataFromFile(embedDBState *state);
 int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state);
 int8_t embedDBInitIndex(embedDBState *state);
+bool readRecoveredIndexPage(embedDBState *state, id_t physicalPageId, id_t *logicalPageId);
 int8_t embedDBInitIndexFromFile(embedDBState *state);
+bool findIndexRecord(embedDBState *state, id_t dataPage, void **bitmap);
 int8_t embedDBInitVarData(embedDBState *state);
 bool readRecoveredVarPage(embedDBState *state, id_t physicalPageId, id_t *logicalPageId);
 int8_t embedDBInitVarDataFromFile(embedDBState *state);
@@ -606,42 +608,62 @@ int8_t embedDBInitIndex(embedDBState *state) {
     return 0;
 }
 
+/**
+ * @brief   Reads an index page during recovery and checks if it is a page that was written to that location.
+ *          The location may also contain a page that was never written or erased, so contains junk data.
+ * @param   state           embedDB algorithm state structure
+ * @param   physicalPageId  Physical page to read
+ * @param   logicalPageId   Return variable for the logical page id. Only valid if the page is.
+ * @return  Returns true if the page is valid, otherwise false
+ */
+bool readRecoveredIndexPage(embedDBState *state, id_t physicalPageId, id_t *logicalPageId) {
+    if (physicalPageId >= state->numIndexPages || readIndexPage(state, physicalPageId) != 0) {
+        return false;
+    }
+
+    void *buffer = (int8_t *)state->buffer + state->pageSize * EMBEDDB_INDEX_READ_BUFFER;
+    memcpy(logicalPageId, buffer, sizeof(id_t));
+    count_t numRecords = EMBEDDB_GET_COUNT(buffer);
+    return *logicalPageId % state->numIndexPages == physicalPageId && numRecords > 0 && numRecords <= state->maxIdxRecordsPerPage;
+}
+
 int8_t embedDBInitIndexFromFile(embedDBState *state) {
     id_t logicalIndexPageId = 0;
-    id_t maxLogicaIndexPageId = 0;
-    id_t physicalIndexPageId = 0;
+    id_t minLogicalIndexPageId = 0;
+    id_t maxLogicalIndexPageId = 0;
+    count_t blockSize = state->eraseSizeInPages;
 
-    /* This will become zero if there is no more to read */
-    int8_t moreToRead = !(readIndexPage(state, physicalIndexPageId));
+    /* The first block may have been erased to make space for new index pages, so we may need to start from the second block */
+    id_t firstPhysicalPageId = 0;
+    if (!readRecoveredIndexPage(state, firstPhysicalPageId, &minLogicalIndexPageId)) {
+        firstPhysicalPageId = blockSize;
+        /* if there is no valid index page, we can start from scratch. Data pages that are not indexed are always read */
+        if (!readRecoveredIndexPage(state, firstPhysicalPageId, &minLogicalIndexPageId))
+            return 0;
+    }
 
-    bool haveWrappedInMemory = false;
-    int count = 0;
-    void *buffer = (int8_t *)state->buffer + state->pageSize * EMBEDDB_INDEX_READ_BUFFER;
+    /* Find the last page that was written */
+    maxLogicalIndexPageId = minLogicalIndexPageId;
+    id_t physicalIndexPageId = firstPhysicalPageId + 1;
+    while (readRecoveredIndexPage(state, physicalIndexPageId, &logicalIndexPageId) && logicalIndexPageId == maxLogicalIndexPageId + 1) {
+        maxLogicalIndexPageId = logicalIndexPageId;
+        physicalIndexPageId++;
+    }
 
-    while (moreToRead && count < state->numIndexPages) {
-        memcpy(&logicalIndexPageId, buffer, sizeof(id_t));
-        if (count == 0 || logicalIndexPageId == maxLogicaIndexPageId + 1) {
-            maxLogicaIndexPageId = logicalIndexPageId;
-            physicalIndexPageId++;
-            moreToRead = !(readIndexPage(state, physicalIndexPageId));
-            count++;
-        } else {
-            haveWrappedInMemory = logicalIndexPageId == maxLogicaIndexPageId - state->numIndexPages + 1;
-            break;
+    /* If we have wrapped, the oldest index page is the next one. If it has been erased, so has the rest of its block and the oldest one is the first page of the next block */
+    if (physicalIndexPageId < state->numIndexPages) {
+        id_t nextBlock = physicalIndexPageId - physicalIndexPageId % blockSize + blockSize;
+        id_t expectedLogicalPageId = maxLogicalIndexPageId + 1 - state->numIndexPages;
+        if (readRecoveredIndexPage(state, physicalIndexPageId, &logicalIndexPageId) && logicalIndexPageId == expectedLogicalPageId) {
+            minLogicalIndexPageId = logicalIndexPageId;
+        } else if (readRecoveredIndexPage(state, nextBlock, &logicalIndexPageId) && logicalIndexPageId == expectedLogicalPageId + (nextBlock - physicalIndexPageId)) {
+            minLogicalIndexPageId = logicalIndexPageId;
         }
     }
 
-    if (count == 0)
-        return 0;
-
-    state->nextIdxPageId = maxLogicaIndexPageId + 1;
-    id_t physicalPageIDOfSmallestData = 0;
-    if (haveWrappedInMemory) {
-        physicalPageIDOfSmallestData = logicalIndexPageId % state->numIndexPages;
-    }
-    readIndexPage(state, physicalPageIDOfSmallestData);
-    memcpy(&(state->minIndexPageId), buffer, sizeof(id_t));
-    state->numAvailIndexPages = state->numIndexPages + state->minIndexPageId - maxLogicaIndexPageId - 1;
+    state->nextIdxPageId = maxLogicalIndexPageId + 1;
+    state->minIndexPageId = minLogicalIndexPageId;
+    state->numAvailIndexPages = state->numIndexPages + state->minIndexPageId - maxLogicalIndexPageId - 1;
 
     return 0;
 }
@@ -1744,6 +1766,66 @@ int8_t embedDBFlush(embedDBState *state) {
     return 0;
 }
 
+/**
+ * @brief	Finds the bitmap of a data page in the index pages on storage.
+ * @param	state	    embedDB algorithm state structure
+ * @param	dataPage	Logical id of the data page
+ * @param	bitmap	    Return variable for the location of the bitmap in the index read buffer
+ * @return	Returns true if the data page is indexed, otherwise false
+ */
+bool findIndexRecord(embedDBState *state, id_t dataPage, void **bitmap) {
+    int8_t *buffer = (int8_t *)state->buffer + EMBEDDB_INDEX_READ_BUFFER * state->pageSize;
+    id_t low = state->minIndexPageId, high = state->nextIdxPageId;
+    if (low >= high) {
+        return false;
+    }
+
+    /* As index pages may be written before they are full, search for the page. Start with the one in the buffer as it or its successor often is the right one */
+    id_t logicalPageId = 0, firstDataPage = 0;
+    id_t indexPage = dataPage / state->maxIdxRecordsPerPage;
+    if (state->bufferedIndexPageId != (id_t)-1) {
+        memcpy(&logicalPageId, buffer, sizeof(id_t));
+        if (logicalPageId % state->numIndexPages == state->bufferedIndexPageId) {
+            indexPage = logicalPageId;
+        }
+    }
+    if (indexPage < low) {
+        indexPage = low;
+    } else if (indexPage >= high) {
+        indexPage = high - 1;
+    }
+
+    bool firstTry = true;
+    while (low < high) {
+        if (readIndexPage(state, indexPage % state->numIndexPages) != 0) {
+#ifdef PRINT_ERRORS
+            printf("ERROR: Failed to read index page %i (%i)\n", indexPage, indexPage % state->numIndexPages);
+#endif
+            return false;
+        }
+
+        memcpy(&logicalPageId, buffer, sizeof(id_t));
+        memcpy(&firstDataPage, buffer + 8, sizeof(id_t));
+        count_t count = EMBEDDB_GET_COUNT(buffer);
+        if (logicalPageId != indexPage || count > state->maxIdxRecordsPerPage) {
+            return false;
+        }
+
+        if (dataPage < firstDataPage) {
+            high = indexPage;
+            indexPage = low + (high - low) / 2;
+        } else if (dataPage - firstDataPage >= count) {
+            low = indexPage + 1;
+            indexPage = firstTry ? low : low + (high - low) / 2;
+        } else {
+            *bitmap = buffer + EMBEDDB_IDX_HEADER_SIZE + (dataPage - firstDataPage) * state->bitmapSize;
+            return true;
+        }
+        firstTry = false;
+    }
+    return false;
+}
+
 /**
  * @brief	Return next key, data pair for iterator.
  * @param	state	embedDB algorithm state structure
@@ -1762,31 +1844,14 @@ int8_t embedDBNext(embedDBState *state, embedDBIterator *it, void *key, void *da
             searchWriteBuf = 1;
         }
 
-        // If we are just starting to read a new page and we have a query bitmap
-        if (it->nextDataRec == 0 && it->queryBitmap != NULL) {
-            // Find what index page determines if we should read the data page
-            uint32_t indexPage = it->nextDataPage / state->maxIdxRecordsPerPage;
-            uint16_t indexRec = it->nextDataPage % state->maxIdxRecordsPerPage;
-
-            if (state->indexFile != NULL && indexPage >= state->minIndexPageId && indexPage < state->nextIdxPageId) {
-                // If the index page that contains this data page exists, else we must read the data page regardless cause we don't have the index saved for it
-
-                if (readIndexPage(state, indexPage % state->numIndexPages) != 0) {
-#ifdef PRINT_ERRORS
-                    printf("ERROR: Failed to read index page %i (%i)\n", indexPage, indexPage % state->numIndexPages);
-#endif
-                    return 0;
-                }
-
-                // Get bitmap for data page in question
-                void *indexBM = (int8_t *)state->buffer + EMBEDDB_INDEX_READ_BUFFER * state->pageSize + EMBEDDB_IDX_HEADER_SIZE + indexRec * state->bitmapSize;
-
-                // Determine if we should read the data page
-                if (!bitmapOverlap(it->queryBitmap, indexBM, state->bitmapSize)) {
-                    // Do not read this data page, try the next one
-                    it->nextDataPage++;
-                    continue;
-                }
+        // If we are just starting to read a new page and we have a query bitmap, check if the index tells us that we do not need to read the data page
+        // If the data page is not indexed, we must read the data page regardless cause we don't have the index saved for it
+        if (searchWriteBuf == 0 && it->nextDataRec == 0 && it->queryBitmap != NULL && state->indexFile != NULL) {
+            void *indexBM = NULL;
+            if (findIndexRecord(state, it->nextDataPage, &indexBM) && !bitmapOverlap(it->queryBitmap, indexBM, state->bitmapSize)) {
+                // Do not read this data page, try the next one
+                it->nextDataPage++;
+                continue;
             }
         }
 
@@ -2169,17 +2234,20 @@ id_t writeIndexPage(embedDBState *state, void *buffer) {
     memcpy(buffer, &(pageNum), sizeof(id_t));
 
     if (state->numAvailIndexPages <= 0) {
-        // Erase index pages to make room for new page
-        int8_t eraseResult = state->fileInterface->erase(physicalPageNumber, physicalPageNumber + state->eraseSizeInPages, state->pageSize, state->indexFile);
-        if (eraseResult != 1) {
+        // Erase index pages to make room for new page. Inside a block this was done with its first page, so after a recovery the old pages only seem to exist
+        count_t pagesInBlock = state->eraseSizeInPages - physicalPageNumber % state->eraseSizeInPages;
+        if (pagesInBlock == state->eraseSizeInPages) {
+            int8_t eraseResult = state->fileInterface->erase(physicalPageNumber, physicalPageNumber + state->eraseSizeInPages, state->pageSize, state->indexFile);
+            if (eraseResult != 1) {
 #ifdef PRINT_ERRORS
-            printf("Failed to erase data page: %i (%i)\n", pageNum, physicalPageNumber);
+                printf("Failed to erase data page: %i (%i)\n", pageNum, physicalPageNumber);
 #endif
-            return -1;
+                return -1;
+            }
         }
-        invalidateBufferedPages(&state->bufferedIndexPageId, physicalPageNumber, physicalPageNumber + state->eraseSizeInPages);
-        state->numAvailIndexPages += state->eraseSizeInPages;
-        state->minIndexPageId += state->eraseSizeInPages;
+        invalidateBufferedPages(&state->bufferedIndexPageId, physicalPageNumber, physicalPageNumber + pagesInBlock);
+        state->numAvailIndexPages += pagesInBlock;
+        state->minIndexPageId += pagesInBlock;
     }
 
     /* Seek to page location in file */
-- 
2.43.0


From 600832e76d9bdb6e6543e982b281341f158d1c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:14 +0000
Subject: [PATCH 11/45] fix: continue open iterators at the oldest page that
 still exists

An iterator that was overtaken by the wrap around of the data returned
records of the newer pages written to the same location, out of order.
---
 lib/Distribution/embedDB.c | 5 +++++
 src/embedDB/embedDB.c      | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index d9a780f..3d3c30b 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -2261,6 +2261,11 @@ bool findIndexRecord(embedDBState *state, id_t dataPage, void **bitmap) {
 int8_t embedDBNext(embedDBState *state, embedDBIterator *it, void *key, void *data) {
     int searchWriteBuf = 0;
     while (1) {
+        if (it->nextDataPage < state->minDataPageId) {
+            // The page has been overwritten since, so continue with the oldest one that still exists
+            it->nextDataPage = state->minDataPageId;
+            it->nextDataRec = 0;
+        }
         if (it->nextDataPage > state->nextDataPageId) {
             return 0;
         }
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index c885d8b..53e2484 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1837,6 +1837,11 @@ bool findIndexRecord(embedDBState *state, id_t dataPage, void **bitmap) {
 int8_t embedDBNext(embedDBState *state, embedDBIterator *it, void *key, void *data) {
     int searchWriteBuf = 0;
     while (1) {
+        if (it->nextDataPage < state->minDataPageId) {
+            // The page has been overwritten since, so continue with the oldest one that still exists
+            it->nextDataPage = state->minDataPageId;
+            it->nextDataRec = 0;
+        }
         if (it->nextDataPage > state->nextDataPageId) {
             return 0;
         }
-- 
2.43.0


From ed2c9859dad61e34baf4230ac06f4747886024c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:54 +0000
Subject: [PATCH 12/45] fix: compute the learned index exactly for large key
 distances

---
 lib/Distribution/embedDB.c | 104 +++++++++++++++++++++++++++++--------
 src/spline/spline.c        | 104 +++++++++++++++++++++++++++++--------
 2 files changed, 166 insertions(+), 42 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 3d3c30b..0957ac1 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -97,18 +97,80 @@ void splineInit(spline *spl, id_t size, size_t maxError, uint8_t keySize) {
     spl->numAddCalls = 0;
 }
 
+/**
+ * @brief    Compare the products of x (64 bits) and y (magnitude at most 32 bits), which may not fit into 64 bits.
+ * @return   -1 if y1 * x1 < y2 * x2, 1 if y1 * x1 > y2 * x2 and 0 if they are equal
+ */
+static int8_t splineCompareProducts(int64_t y1, uint64_t x1, int64_t y2, uint64_t x2) {
+    int8_t sign1 = (x1 == 0 || y1 == 0) ? 0 : (y1 < 0 ? -1 : 1);
+    int8_t sign2 = (x2 == 0 || y2 == 0) ? 0 : (y2 < 0 ? -1 : 1);
+    if (sign1 != sign2) {
+        return sign1 < sign2 ? -1 : 1;
+    }
+
+    uint64_t abs1 = y1 < 0 ? -y1 : y1;
+    uint64_t abs2 = y2 < 0 ? -y2 : y2;
+    uint64_t low1 = abs1 * (x1 & UINT32_MAX), low2 = abs2 * (x2 & UINT32_MAX);
+    uint64_t high1 = abs1 * (x1 >> 32) + (low1 >> 32), high2 = abs2 * (x2 >> 32) + (low2 >> 32);
+    low1 &= UINT32_MAX;
+    low2 &= UINT32_MAX;
+    if (high1 == high2 && low1 == low2) {
+        return 0;
+    }
+    return (high1 < high2 || (high1 == high2 && low1 < low2)) ? -sign1 : sign1;
+}
+
 /**
  * @brief    Check if first line is to the left (counter-clockwise) of the second.
  */
 static inline int8_t splineIsLeft(uint64_t x1, int64_t y1, uint64_t x2, int64_t y2) {
-    return y1 * x2 > y2 * x1;
+    return splineCompareProducts(y1, x2, y2, x1) > 0;
 }
 
 /**
  * @brief    Check if first line is to the right (clockwise) of the second.
  */
 static inline int8_t splineIsRight(uint64_t x1, int64_t y1, uint64_t x2, int64_t y2) {
-    return y1 * x2 < y2 * x1;
+    return splineCompareProducts(y1, x2, y2, x1) < 0;
+}
+
+/**
+ * @brief    Interpolate the page of a key between two spline points.
+ * @param    keyDiff    Difference of the key to the lower point. At most segmentKeyDiff
+ * @param    segmentKeyDiff     Difference of the keys of the points
+ * @param    segmentPageDiff    Difference of the pages of the points
+ * @return   Difference of the page to the page of the lower point, rounded down
+ */
+static uint32_t splineInterpolate(uint64_t keyDiff, uint64_t segmentKeyDiff, uint32_t segmentPageDiff) {
+    if (segmentKeyDiff == 0 || segmentPageDiff == 0) {
+        return 0;
+    }
+    if (keyDiff <= UINT64_MAX / segmentPageDiff) {
+        return keyDiff * segmentPageDiff / segmentKeyDiff;
+    }
+
+    /* The product does not fit into 64 bits. Find the largest page difference that is not above the line */
+    uint32_t low = 0, high = segmentPageDiff;
+    while (low < high) {
+        uint32_t middle = high - (high - low) / 2;
+        if (splineCompareProducts(middle, segmentKeyDiff, segmentPageDiff, keyDiff) <= 0) {
+            low = middle;
+        } else {
+            high = middle - 1;
+        }
+    }
+    return low;
+}
+
+/**
+ * @brief    Limits of the pages that are within the error of a page.
+ */
+static inline uint32_t splineLowerPage(spline *spl, uint32_t page) {
+    return page < spl->maxError ? 0 : page - spl->maxError;
+}
+
+static inline uint32_t splineUpperPage(spline *spl, uint32_t page) {
+    return UINT32_MAX - page < spl->maxError ? UINT32_MAX : page + spl->maxError;
 }
 
 /**
@@ -137,10 +199,10 @@ void splineAdd(spline *spl, void *key, uint32_t page) {
     if (spl->numAddCalls == 2) {
         /* Initialize upper and lower limits using second (unique) data point */
         memcpy(spl->lower, key, spl->keySize);
-        uint32_t lowerPage = page < spl->maxError ? 0 : page - spl->maxError;
+        uint32_t lowerPage = splineLowerPage(spl, page);
         memcpy(((int8_t *)spl->lower + spl->keySize), &lowerPage, sizeof(uint32_t));
         memcpy(spl->upper, key, spl->keySize);
-        uint32_t upperPage = page + spl->maxError;
+        uint32_t upperPage = splineUpperPage(spl, page);
         memcpy(((int8_t *)spl->upper + spl->keySize), &upperPage, sizeof(uint32_t));
         memcpy(spl->lastKey, key, spl->keySize);
         spl->lastLoc = page;
@@ -168,17 +230,17 @@ void splineAdd(spline *spl, void *key, uint32_t page) {
     memcpy(&lastPage, (int8_t *)lastPointLocation + spl->keySize, sizeof(uint32_t));
 
     uint64_t xdiff, upperXDiff, lowerXDiff = 0;
-    uint32_t ydiff, upperYDiff = 0;
-    int64_t lowerYDiff = 0; /* This may be negative */
+    int64_t ydiff, upperYDiff, lowerYDiff = 0; /* The lower one may be negative */
+    uint32_t limitPage = 0;
 
     xdiff = keyVal - lastPointKey;
-    ydiff = page - lastPage;
+    ydiff = (int64_t)page - lastPage;
     upperXDiff = upperKey - lastPointKey;
-    memcpy(&upperYDiff, (int8_t *)spl->upper + spl->keySize, sizeof(uint32_t));
-    upperYDiff -= lastPage;
+    memcpy(&limitPage, (int8_t *)spl->upper + spl->keySize, sizeof(uint32_t));
+    upperYDiff = (int64_t)limitPage - lastPage;
     lowerXDiff = lowerKey - lastPointKey;
-    memcpy(&lowerYDiff, (int8_t *)spl->lower + spl->keySize, sizeof(uint32_t));
-    lowerYDiff -= lastPage;
+    memcpy(&limitPage, (int8_t *)spl->lower + spl->keySize, sizeof(uint32_t));
+    lowerYDiff = (int64_t)limitPage - lastPage;
 
     if (spl->count >= spl->size) {
         int8_t eraseResult = splineErase(spl, spl->eraseSize);
@@ -196,10 +258,10 @@ void splineAdd(spline *spl, void *key, uint32_t page) {
 
         /* Update upper and lower limits. */
         memcpy(spl->lower, key, spl->keySize);
-        uint32_t lowerPage = page < spl->maxError ? 0 : page - spl->maxError;
+        uint32_t lowerPage = splineLowerPage(spl, page);
         memcpy((int8_t *)spl->lower + spl->keySize, &lowerPage, sizeof(uint32_t));
         memcpy(spl->upper, key, spl->keySize);
-        uint32_t upperPage = page + spl->maxError;
+        uint32_t upperPage = splineUpperPage(spl, page);
         memcpy((int8_t *)spl->upper + spl->keySize, &upperPage, sizeof(uint32_t));
 
         /* If we add a point, we might need to erase again */
@@ -211,16 +273,16 @@ void splineAdd(spline *spl, void *key, uint32_t page) {
         /* Check if must update upper or lower limits */
 
         /* Upper limit */
-        if (splineIsLeft(upperXDiff, upperYDiff, xdiff, page + spl->maxError - lastPage) == 1) {
+        if (splineIsLeft(upperXDiff, upperYDiff, xdiff, (int64_t)splineUpperPage(spl, page) - lastPage) == 1) {
             memcpy(spl->upper, key, spl->keySize);
-            uint32_t upperPage = page + spl->maxError;
+            uint32_t upperPage = splineUpperPage(spl, page);
             memcpy((int8_t *)spl->upper + spl->keySize, &upperPage, sizeof(uint32_t));
         }
 
         /* Lower limit */
-        if (splineIsRight(lowerXDiff, lowerYDiff, xdiff, (page < spl->maxError ? 0 : page - spl->maxError) - lastPage) == 1) {
+        if (splineIsRight(lowerXDiff, lowerYDiff, xdiff, (int64_t)splineLowerPage(spl, page) - lastPage) == 1) {
             memcpy(spl->lower, key, spl->keySize);
-            uint32_t lowerPage = page < spl->maxError ? 0 : page - spl->maxError;
+            uint32_t lowerPage = splineLowerPage(spl, page);
             memcpy((int8_t *)spl->lower + spl->keySize, &lowerPage, sizeof(uint32_t));
         }
     }
@@ -370,7 +432,7 @@ void splineFind(spline *spl, void *key, int8_t compareKey(void *, void *), id_t
         uint32_t lowEstimate, highEstimate, locEstimate = 0;
         memcpy(&lowEstimate, (int8_t *)spl->firstSplinePoint + spl->keySize, sizeof(uint32_t));
         memcpy(&highEstimate, (int8_t *)smallestSplinePoint + spl->keySize, sizeof(uint32_t));
-        locEstimate = (lowEstimate + highEstimate) / 2;
+        locEstimate = lowEstimate + (highEstimate - lowEstimate) / 2;
 
         memcpy(loc, &locEstimate, sizeof(uint32_t));
         memcpy(low, &lowEstimate, sizeof(uint32_t));
@@ -399,16 +461,16 @@ void splineFind(spline *spl, void *key, int8_t compareKey(void *, void *), id_t
 
     // Estimate location as page number
     // Keydiff * slope + y
-    id_t locationEstimate = (id_t)((keyVal - downKeyVal) * (upPage - downPage) / (long double)(upKeyVal - downKeyVal)) + downPage;
+    id_t locationEstimate = splineInterpolate(keyVal - downKeyVal, upKeyVal - downKeyVal, upPage - downPage) + downPage;
     memcpy(loc, &locationEstimate, sizeof(id_t));
 
     // Set error bounds based on maxError from spline construction
-    id_t lowEstiamte = (spl->maxError > locationEstimate) ? 0 : locationEstimate - spl->maxError;
+    id_t lowEstiamte = splineLowerPage(spl, locationEstimate);
     memcpy(low, &lowEstiamte, sizeof(id_t));
     void *lastSplinePoint = splinePointLocation(spl, spl->count - 1);
     uint32_t lastSplinePointPage = 0;
     memcpy(&lastSplinePointPage, (int8_t *)lastSplinePoint + spl->keySize, sizeof(uint32_t));
-    id_t highEstimate = (locationEstimate + spl->maxError > lastSplinePointPage) ? lastSplinePointPage : locationEstimate + spl->maxError;
+    id_t highEstimate = (splineUpperPage(spl, locationEstimate) > lastSplinePointPage) ? lastSplinePointPage : splineUpperPage(spl, locationEstimate);
     memcpy(high, &highEstimate, sizeof(id_t));
 }
 
diff --git a/src/spline/spline.c b/src/spline/spline.c
index 131536b..d4873cb 100644
--- a/src/spline/spline.c
+++ b/src/spline/spline.c
@@ -68,18 +68,80 @@ void splineInit(spline *spl, id_t size, size_t maxError, uint8_t keySize) {
     spl->numAddCalls = 0;
 }
 
+/**
+ * @brief    Compare the products of x (64 bits) and y (magnitude at most 32 bits), which may not fit into 64 bits.
+ * @return   -1 if y1 * x1 < y2 * x2, 1 if y1 * x1 > y2 * x2 and 0 if they are equal
+ */
+static int8_t splineCompareProducts(int64_t y1, uint64_t x1, int64_t y2, uint64_t x2) {
+    int8_t sign1 = (x1 == 0 || y1 == 0) ? 0 : (y1 < 0 ? -1 : 1);
+    int8_t sign2 = (x2 == 0 || y2 == 0) ? 0 : (y2 < 0 ? -1 : 1);
+    if (sign1 != sign2) {
+        return sign1 < sign2 ? -1 : 1;
+    }
+
+    uint64_t abs1 = y1 < 0 ? -y1 : y1;
+    uint64_t abs2 = y2 < 0 ? -y2 : y2;
+    uint64_t low1 = abs1 * (x1 & UINT32_MAX), low2 = abs2 * (x2 & UINT32_MAX);
+    uint64_t high1 = abs1 * (x1 >> 32) + (low1 >> 32), high2 = abs2 * (x2 >> 32) + (low2 >> 32);
+    low1 &= UINT32_MAX;
+    low2 &= UINT32_MAX;
+    if (high1 == high2 && low1 == low2) {
+        return 0;
+    }
+    return (high1 < high2 || (high1 == high2 && low1 < low2)) ? -sign1 : sign1;
+}
+
 /**
  * @brief    Check if first line is to the left (counter-clockwise) of the second.
  */
 static inline int8_t splineIsLeft(uint64_t x1, int64_t y1, uint64_t x2, int64_t y2) {
-    return y1 * x2 > y2 * x1;
+    return splineCompareProducts(y1, x2, y2, x1) > 0;
 }
 
 /**
  * @brief    Check if first line is to the right (clockwise) of the second.
  */
 static inline int8_t splineIsRight(uint64_t x1, int64_t y1, uint64_t x2, int64_t y2) {
-    return y1 * x2 < y2 * x1;
+    return splineCompareProducts(y1, x2, y2, x1) < 0;
+}
+
+/**
+ * @brief    Interpolate the page of a key between two spline points.
+ * @param    keyDiff    Difference of the key to the lower point. At most segmentKeyDiff
+ * @param    segmentKeyDiff     Difference of the keys of the points
+ * @param    segmentPageDiff    Difference of the pages of the points
+ * @return   Difference of the page to the page of the lower point, rounded down
+ */
+static uint32_t splineInterpolate(uint64_t keyDiff, uint64_t segmentKeyDiff, uint32_t segmentPageDiff) {
+    if (segmentKeyDiff == 0 || segmentPageDiff == 0) {
+        return 0;
+    }
+    if (keyDiff <= UINT64_MAX / segmentPageDiff) {
+        return keyDiff * segmentPageDiff / segmentKeyDiff;
+    }
+
+    /* The product does not fit into 64 bits. Find the largest page difference that is not above the line */
+    uint32_t low = 0, high = segmentPageDiff;
+    while (low < high) {
+        uint32_t middle = high - (high - low) / 2;
+        if (splineCompareProducts(middle, segmentKeyDiff, segmentPageDiff, keyDiff) <= 0) {
+            low = middle;
+        } else {
+            high = middle - 1;
+        }
+    }
+    return low;
+}
+
+/**
+ * @brief    Limits of the pages that are within the error of a page.
+ */
+static inline uint32_t splineLowerPage(spline *spl, uint32_t page) {
+    return page < spl->maxError ? 0 : page - spl->maxError;
+}
+
+static inline uint32_t splineUpperPage(spline *spl, uint32_t page) {
+    return UINT32_MAX - page < spl->maxError ? UINT32_MAX : page + spl->maxError;
 }
 
 /**
@@ -108,10 +170,10 @@ void splineAdd(spline *spl, void *key, uint32_t page) {
     if (spl->numAddCalls == 2) {
         /* Initialize upper and lower limits using second (unique) data point */
         memcpy(spl->lower, key, spl->keySize);
-        uint32_t lowerPage = page < spl->maxError ? 0 : page - spl->maxError;
+        uint32_t lowerPage = splineLowerPage(spl, page);
         memcpy(((int8_t *)spl->lower + spl->keySize), &lowerPage, sizeof(uint32_t));
         memcpy(spl->upper, key, spl->keySize);
-        uint32_t upperPage = page + spl->maxError;
+        uint32_t upperPage = splineUpperPage(spl, page);
         memcpy(((int8_t *)spl->upper + spl->keySize), &upperPage, sizeof(uint32_t));
         memcpy(spl->lastKey, key, spl->keySize);
         spl->lastLoc = page;
@@ -139,17 +201,17 @@ void splineAdd(spline *spl, void *key, uint32_t page) {
     memcpy(&lastPage, (int8_t *)lastPointLocation + spl->keySize, sizeof(uint32_t));
 
     uint64_t xdiff, upperXDiff, lowerXDiff = 0;
-    uint32_t ydiff, upperYDiff = 0;
-    int64_t lowerYDiff = 0; /* This may be negative */
+    int64_t ydiff, upperYDiff, lowerYDiff = 0; /* The lower one may be negative */
+    uint32_t limitPage = 0;
 
     xdiff = keyVal - lastPointKey;
-    ydiff = page - lastPage;
+    ydiff = (int64_t)page - lastPage;
     upperXDiff = upperKey - lastPointKey;
-    memcpy(&upperYDiff, (int8_t *)spl->upper + spl->keySize, sizeof(uint32_t));
-    upperYDiff -= lastPage;
+    memcpy(&limitPage, (int8_t *)spl->upper + spl->keySize, sizeof(uint32_t));
+    upperYDiff = (int64_t)limitPage - lastPage;
     lowerXDiff = lowerKey - lastPointKey;
-    memcpy(&lowerYDiff, (int8_t *)spl->lower + spl->keySize, sizeof(uint32_t));
-    lowerYDiff -= lastPage;
+    memcpy(&limitPage, (int8_t *)spl->lower + spl->keySize, sizeof(uint32_t));
+    lowerYDiff = (int64_t)limitPage - lastPage;
 
     if (spl->count >= spl->size) {
         int8_t eraseResult = splineErase(spl, spl->eraseSize);
@@ -167,10 +229,10 @@ void splineAdd(spline *spl, void *key, uint32_t page) {
 
         /* Update upper and lower limits. */
         memcpy(spl->lower, key, spl->keySize);
-        uint32_t lowerPage = page < spl->maxError ? 0 : page - spl->maxError;
+        uint32_t lowerPage = splineLowerPage(spl, page);
         memcpy((int8_t *)spl->lower + spl->keySize, &lowerPage, sizeof(uint32_t));
         memcpy(spl->upper, key, spl->keySize);
-        uint32_t upperPage = page + spl->maxError;
+        uint32_t upperPage = splineUpperPage(spl, page);
         memcpy((int8_t *)spl->upper + spl->keySize, &upperPage, sizeof(uint32_t));
 
         /* If we add a point, we might need to erase again */
@@ -182,16 +244,16 @@ void splineAdd(spline *spl, void *key, uint32_t page) {
         /* Check if must update upper or lower limits */
 
         /* Upper limit */
-        if (splineIsLeft(upperXDiff, upperYDiff, xdiff, page + spl->maxError - lastPage) == 1) {
+        if (splineIsLeft(upperXDiff, upperYDiff, xdiff, (int64_t)splineUpperPage(spl, page) - lastPage) == 1) {
             memcpy(spl->upper, key, spl->keySize);
-            uint32_t upperPage = page + spl->maxError;
+            uint32_t upperPage = splineUpperPage(spl, page);
             memcpy((int8_t *)spl->upper + spl->keySize, &upperPage, sizeof(uint32_t));
         }
 
         /* Lower limit */
-        if (splineIsRight(lowerXDiff, lowerYDiff, xdiff, (page < spl->maxError ? 0 : page - spl->maxError) - lastPage) == 1) {
+        if (splineIsRight(lowerXDiff, lowerYDiff, xdiff, (int64_t)splineLowerPage(spl, page) - lastPage) == 1) {
             memcpy(spl->lower, key, spl->keySize);
-            uint32_t lowerPage = page < spl->maxError ? 0 : page - spl->maxError;
+            uint32_t lowerPage = splineLowerPage(spl, page);
             memcpy((int8_t *)spl->lower + spl->keySize, &lowerPage, sizeof(uint32_t));
         }
     }
@@ -341,7 +403,7 @@ void splineFind(spline *spl, void *key, int8_t compareKey(void *, void *), id_t
         uint32_t lowEstimate, highEstimate, locEstimate = 0;
         memcpy(&lowEstimate, (int8_t *)spl->firstSplinePoint + spl->keySize, sizeof(uint32_t));
         memcpy(&highEstimate, (int8_t *)smallestSplinePoint + spl->keySize, sizeof(uint32_t));
-        locEstimate = (lowEstimate + highEstimate) / 2;
+        locEstimate = lowEstimate + (highEstimate - lowEstimate) / 2;
 
         memcpy(loc, &locEstimate, sizeof(uint32_t));
         memcpy(low, &lowEstimate, sizeof(uint32_t));
@@ -370,16 +432,16 @@ void splineFind(spline *spl, void *key, int8_t compareKey(void *, void *), id_t
 
     // Estimate location as page number
     // Keydiff * slope + y
-    id_t locationEstimate = (id_t)((keyVal - downKeyVal) * (upPage - downPage) / (long double)(upKeyVal - downKeyVal)) + downPage;
+    id_t locationEstimate = splineInterpolate(keyVal - downKeyVal, upKeyVal - downKeyVal, upPage - downPage) + downPage;
     memcpy(loc, &locationEstimate, sizeof(id_t));
 
     // Set error bounds based on maxError from spline construction
-    id_t lowEstiamte = (spl->maxError > locationEstimate) ? 0 : locationEstimate - spl->maxError;
+    id_t lowEstiamte = splineLowerPage(spl, locationEstimate);
     memcpy(low, &lowEstiamte, sizeof(id_t));
     void *lastSplinePoint = splinePointLocation(spl, spl->count - 1);
     uint32_t lastSplinePointPage = 0;
     memcpy(&lastSplinePointPage, (int8_t *)lastSplinePoint + spl->keySize, sizeof(uint32_t));
-    id_t highEstimate = (locationEstimate + spl->maxError > lastSplinePointPage) ? lastSplinePointPage : locationEstimate + spl->maxError;
+    id_t highEstimate = (splineUpperPage(spl, locationEstimate) > lastSplinePointPage) ? lastSplinePointPage : splineUpperPage(spl, locationEstimate);
     memcpy(high, &highEstimate, sizeof(id_t));
 }
 
-- 
2.43.0


From 1af1e4d37389d9a1f595eba8ee99934b6c00c30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:00 +0000
Subject: [PATCH 13/45] fix: end the binary search at the first and last page

---
 lib/Distribution/embedDB.c | 16 ++++++++--------
 src/embedDB/embedDB.c      | 16 ++++++++--------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 0957ac1..4d7985b 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1898,24 +1898,24 @@ int8_t linearSearch(embedDBState *state, void *buf, void *key, int32_t pageId, i
 }
 
 int8_t binarySearch(embedDBState *state, void *buffer, void *key) {
-    uint32_t first = state->minDataPageId, last = state->nextDataPageId - 1;
-    uint32_t pageId = (first + last) / 2;
+    id_t first = state->minDataPageId, last = state->nextDataPageId - 1;
     while (1) {
+        id_t pageId = first + (last - first) / 2;
+
         /* Read page into buffer */
         if (readPage(state, pageId % state->numDataPages) != 0)
             return -1;
 
-        if (first >= last)
-            break;
-
         if (state->compareKey(key, embedDBGetMinKey(state, buffer)) < 0) {
             /* Key is less than smallest record in block. */
+            if (pageId == first)
+                return -1;
             last = pageId - 1;
-            pageId = (first + last) / 2;
         } else if (state->compareKey(key, embedDBGetMaxKey(state, buffer)) > 0) {
             /* Key is larger than largest record in block. */
+            if (pageId == last)
+                return -1;
             first = pageId + 1;
-            pageId = (first + last) / 2;
         } else {
             /* Found correct block */
             return 0;
@@ -1936,7 +1936,7 @@ int8_t splineSearch(embedDBState *state, void *buffer, void *key) {
     /* if the spline returns a lowbound lower than than the smallest page we have, we can move the lowbound and location up */
     if (lowbound < state->minDataPageId) {
         lowbound = state->minDataPageId;
-        location = (lowbound + highbound) / 2;
+        location = lowbound + (highbound - lowbound) / 2;
     }
 
     // Check if the currently buffered page is the correct one. The bounds are logical page ids, so use the id in the header of the page if it is a page with data
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 53e2484..d45dd8c 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1412,24 +1412,24 @@ int8_t linearSearch(embedDBState *state, void *buf, void *key, int32_t pageId, i
 }
 
 int8_t binarySearch(embedDBState *state, void *buffer, void *key) {
-    uint32_t first = state->minDataPageId, last = state->nextDataPageId - 1;
-    uint32_t pageId = (first + last) / 2;
+    id_t first = state->minDataPageId, last = state->nextDataPageId - 1;
     while (1) {
+        id_t pageId = first + (last - first) / 2;
+
         /* Read page into buffer */
         if (readPage(state, pageId % state->numDataPages) != 0)
             return -1;
 
-        if (first >= last)
-            break;
-
         if (state->compareKey(key, embedDBGetMinKey(state, buffer)) < 0) {
             /* Key is less than smallest record in block. */
+            if (pageId == first)
+                return -1;
             last = pageId - 1;
-            pageId = (first + last) / 2;
         } else if (state->compareKey(key, embedDBGetMaxKey(state, buffer)) > 0) {
             /* Key is larger than largest record in block. */
+            if (pageId == last)
+                return -1;
             first = pageId + 1;
-            pageId = (first + last) / 2;
         } else {
             /* Found correct block */
             return 0;
@@ -1450,7 +1450,7 @@ int8_t splineSearch(embedDBState *state, void *buffer, void *key) {
     /* if the spline returns a lowbound lower than than the smallest page we have, we can move the lowbound and location up */
     if (lowbound < state->minDataPageId) {
         lowbound = state->minDataPageId;
-        location = (lowbound + highbound) / 2;
+        location = lowbound + (highbound - lowbound) / 2;
     }
 
     // Check if the currently buffered page is the correct one. The bounds are logical page ids, so use the id in the header of the page if it is a page with data
-- 
2.43.0


From 00f4121ec0cbac203b7c25a7560362f8d9872c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:20 +0000
Subject: [PATCH 14/45] fix: estimate key locations from the records of the
 page that is searched

---
 lib/Distribution/embedDB.c | 15 +++++++++++----
 src/embedDB/embedDB.c      | 14 ++++++++++----
 2 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 4d7985b..f02e9cf 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1329,6 +1329,7 @@ float embedDBCalculateSlope(embedDBState *state, void *buffer) {
     uint32_t slopeX1, slopeX2;
     slopeX1 = 0;
     slopeX2 = EMBEDDB_GET_COUNT(buffer) - 1;
+    if(EMBEDDB_GET_COUNT(buffer) == 0) slopeX2 = 0;
 
     if (state->keySize <= 4) {
         uint32_t slopeY1 = 0, slopeY2 = 0;
@@ -1375,7 +1376,7 @@ int32_t getMaxError(embedDBState *state, void *buffer) {
         // get slope of keys within page
         float slope = embedDBCalculateSlope(state, buffer);
 
-        for (int i = 0; i < state->maxRecordsPerPage; i++) {
+        for (int i = 0; i < EMBEDDB_GET_COUNT(buffer); i++) {
             // loop all keys in page
             memcpy(&currentKey, ((int8_t *)buffer + state->headerSize + state->recordSize * i), state->keySize);
 
@@ -1404,9 +1405,9 @@ int32_t getMaxError(embedDBState *state, void *buffer) {
         memcpy(&minKey, embedDBGetMinKey(state, buffer), state->keySize);
 
         // get slope of keys within page
-        float slope = embedDBCalculateSlope(state, state->buffer);  // this is incorrect, should be buffer. TODO: fix
+        float slope = embedDBCalculateSlope(state, buffer);
 
-        for (int i = 0; i < state->maxRecordsPerPage; i++) {
+        for (int i = 0; i < EMBEDDB_GET_COUNT(buffer); i++) {
             // loop all keys in page
             memcpy(&currentKey, ((int8_t *)buffer + state->headerSize + state->recordSize * i), state->keySize);
 
@@ -1806,7 +1807,13 @@ int16_t embedDBEstimateKeyLocation(embedDBState *state, void *buffer, void *key)
     memcpy(&minKey, embedDBGetMinKey(state, buffer), state->keySize);
     memcpy(&thisKey, key, state->keySize);
 
-    return (thisKey - minKey) / slope;
+    // the key may be outside of the node, so limit the estimate to the records of the node
+    if (thisKey <= minKey) {
+        return 0;
+    }
+    float location = (thisKey - minKey) / slope;
+    count_t count = EMBEDDB_GET_COUNT(buffer);
+    return location < count ? (int16_t)location : count;
 }
 
 /**
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index d45dd8c..3e3e3bf 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -889,7 +889,7 @@ int32_t getMaxError(embedDBState *state, void *buffer) {
         // get slope of keys within page
         float slope = embedDBCalculateSlope(state, buffer);
 
-        for (int i = 0; i < state->maxRecordsPerPage; i++) {
+        for (int i = 0; i < EMBEDDB_GET_COUNT(buffer); i++) {
             // loop all keys in page
             memcpy(&currentKey, ((int8_t *)buffer + state->headerSize + state->recordSize * i), state->keySize);
 
@@ -918,9 +918,9 @@ int32_t getMaxError(embedDBState *state, void *buffer) {
         memcpy(&minKey, embedDBGetMinKey(state, buffer), state->keySize);
 
         // get slope of keys within page
-        float slope = embedDBCalculateSlope(state, state->buffer);  // this is incorrect, should be buffer. TODO: fix
+        float slope = embedDBCalculateSlope(state, buffer);
 
-        for (int i = 0; i < state->maxRecordsPerPage; i++) {
+        for (int i = 0; i < EMBEDDB_GET_COUNT(buffer); i++) {
             // loop all keys in page
             memcpy(&currentKey, ((int8_t *)buffer + state->headerSize + state->recordSize * i), state->keySize);
 
@@ -1320,7 +1320,13 @@ int16_t embedDBEstimateKeyLocation(embedDBState *state, void *buffer, void *key)
     memcpy(&minKey, embedDBGetMinKey(state, buffer), state->keySize);
     memcpy(&thisKey, key, state->keySize);
 
-    return (thisKey - minKey) / slope;
+    // the key may be outside of the node, so limit the estimate to the records of the node
+    if (thisKey <= minKey) {
+        return 0;
+    }
+    float location = (thisKey - minKey) / slope;
+    count_t count = EMBEDDB_GET_COUNT(buffer);
+    return location < count ? (int16_t)location : count;
 }
 
 /**
-- 
2.43.0


From fa42459ebccd0d7cfedeb96d4ec4cc90c3c1397b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:14 +0000
Subject: [PATCH 15/45] fix: bitmap helpers lost matches and comparators
 overflowed

---
 lib/Distribution/embedDB.c           | 65 +++++++++++-----------------
 lib/EmbedDB-Utility/embedDBUtility.c | 65 +++++++++++-----------------
 2 files changed, 52 insertions(+), 78 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index f02e9cf..603d03e 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -4406,12 +4406,10 @@ void updateBitmapInt16(void *data, void *bm) {
     int16_t minBase = 320;
     int32_t current = minBase;
     uint16_t num = 32768;
-    while (val > current) {
+    while (val > current && num > 1) { /* Always set last bit if value bigger than largest cutoff */
         current += stepSize;
         num = num / 2;
     }
-    if (num == 0)
-        num = 1; /* Always set last bit if value bigger than largest cutoff */
     *bmval = *bmval | num;
 }
 
@@ -4421,8 +4419,8 @@ int8_t inBitmapInt16(void *data, void *bm) {
     uint16_t tmpbm = 0;
     updateBitmapInt16(data, &tmpbm);
 
-    // Return a number great than 1 if there is an overlap
-    return tmpbm & *bmval;
+    // Return 1 if there is an overlap. The overlap itself may not fit into the return type
+    return (tmpbm & *bmval) != 0;
 }
 
 /**
@@ -4460,8 +4458,8 @@ void buildBitmapInt16FromRange(void *min, void *max, void *bm) {
     }
 }
 
-/* A 64-bit bitmap on a 32-bit int value */
-void updateBitmapInt64(void *data, void *bm) {
+/* Bucket of a value in a 64-bit bitmap on a 32-bit int value. Bucket 0 is the most significant bit of the first byte. */
+static int8_t bucketInt64(void *data) {
     int32_t val = *((int32_t *)data);
 
     int16_t stepSize = 10;  // Temperature data in F. Scaled by 10. */
@@ -4473,6 +4471,12 @@ void updateBitmapInt64(void *data, void *bm) {
         current += stepSize;
         count++;
     }
+    return count;
+}
+
+/* A 64-bit bitmap on a 32-bit int value */
+void updateBitmapInt64(void *data, void *bm) {
+    int8_t count = bucketInt64(data);
     uint8_t b = 128;
     int8_t offset = count / 8;
     b = b >> (count & 7);
@@ -4486,8 +4490,8 @@ int8_t inBitmapInt64(void *data, void *bm) {
     uint64_t tmpbm = 0;
     updateBitmapInt64(data, &tmpbm);
 
-    // Return a number great than 1 if there is an overlap
-    return tmpbm & *bmval;
+    // Return 1 if there is an overlap. The overlap itself may not fit into the return type
+    return (tmpbm & *bmval) != 0;
 }
 
 /**
@@ -4498,30 +4502,12 @@ int8_t inBitmapInt64(void *data, void *bm) {
  * @param	bm		bitmap created
  */
 void buildBitmapInt64FromRange(void *min, void *max, void *bm) {
-    if (min == NULL && max == NULL) {
-        *(uint64_t *)bm = UINT64_MAX; /* Everything */
-        return;
-    } else {
-        uint64_t minMap = 0, maxMap = 0;
-        if (min != NULL) {
-            updateBitmapInt64(min, &minMap);
-            // Turn on all bits below the bit for min value (cause the lsb are for the higher values)
-            minMap = minMap | (minMap - 1);
-            if (max == NULL) {
-                *(uint64_t *)bm = minMap;
-                return;
-            }
-        }
-        if (max != NULL) {
-            updateBitmapInt64(max, &maxMap);
-            // Turn on all bits above the bit for max value (cause the msb are for the lower values)
-            maxMap = ~(maxMap - 1);
-            if (min == NULL) {
-                *(uint64_t *)bm = maxMap;
-                return;
-            }
-        }
-        *(uint64_t *)bm = minMap & maxMap;
+    // Turn on the bits of all buckets from the one of the min value to the one of the max value
+    int8_t first = min != NULL ? bucketInt64(min) : 0;
+    int8_t last = max != NULL ? bucketInt64(max) : 63;
+    memset(bm, 0, sizeof(uint64_t));
+    for (int8_t count = first; count <= last; count++) {
+        ((uint8_t *)bm)[count / 8] |= 128 >> (count & 7);
     }
 }
 
@@ -4529,19 +4515,20 @@ int8_t int32Comparator(void *a, void *b) {
     int32_t i1, i2;
     memcpy(&i1, a, sizeof(int32_t));
     memcpy(&i2, b, sizeof(int32_t));
-    int32_t result = i1 - i2;
-    if (result < 0)
+    if (i1 < i2)
         return -1;
-    if (result > 0)
+    if (i1 > i2)
         return 1;
     return 0;
 }
 
 int8_t int64Comparator(void *a, void *b) {
-    int64_t result = *((int64_t *)a) - *((int64_t *)b);
-    if (result < 0)
+    int64_t i1, i2;
+    memcpy(&i1, a, sizeof(int64_t));
+    memcpy(&i2, b, sizeof(int64_t));
+    if (i1 < i2)
         return -1;
-    if (result > 0)
+    if (i1 > i2)
         return 1;
     return 0;
 }
diff --git a/lib/EmbedDB-Utility/embedDBUtility.c b/lib/EmbedDB-Utility/embedDBUtility.c
index e633364..c3aa186 100644
--- a/lib/EmbedDB-Utility/embedDBUtility.c
+++ b/lib/EmbedDB-Utility/embedDBUtility.c
@@ -113,12 +113,10 @@ void updateBitmapInt16(void *data, void *bm) {
     int16_t minBase = 320;
     int32_t current = minBase;
     uint16_t num = 32768;
-    while (val > current) {
+    while (val > current && num > 1) { /* Always set last bit if value bigger than largest cutoff */
         current += stepSize;
         num = num / 2;
     }
-    if (num == 0)
-        num = 1; /* Always set last bit if value bigger than largest cutoff */
     *bmval = *bmval | num;
 }
 
@@ -128,8 +126,8 @@ int8_t inBitmapInt16(void *data, void *bm) {
     uint16_t tmpbm = 0;
     updateBitmapInt16(data, &tmpbm);
 
-    // Return a number great than 1 if there is an overlap
-    return tmpbm & *bmval;
+    // Return 1 if there is an overlap. The overlap itself may not fit into the return type
+    return (tmpbm & *bmval) != 0;
 }
 
 /**
@@ -167,8 +165,8 @@ void buildBitmapInt16FromRange(void *min, void *max, void *bm) {
     }
 }
 
-/* A 64-bit bitmap on a 32-bit int value */
-void updateBitmapInt64(void *data, void *bm) {
+/* Bucket of a value in a 64-bit bitmap on a 32-bit int value. Bucket 0 is the most significant bit of the first byte. */
+static int8_t bucketInt64(void *data) {
     int32_t val = *((int32_t *)data);
 
     int16_t stepSize = 10;  // Temperature data in F. Scaled by 10. */
@@ -180,6 +178,12 @@ void updateBitmapInt64(void *data, void *bm) {
         current += stepSize;
         count++;
     }
+    return count;
+}
+
+/* A 64-bit bitmap on a 32-bit int value */
+void updateBitmapInt64(void *data, void *bm) {
+    int8_t count = bucketInt64(data);
     uint8_t b = 128;
     int8_t offset = count / 8;
     b = b >> (count & 7);
@@ -193,8 +197,8 @@ int8_t inBitmapInt64(void *data, void *bm) {
     uint64_t tmpbm = 0;
     updateBitmapInt64(data, &tmpbm);
 
-    // Return a number great than 1 if there is an overlap
-    return tmpbm & *bmval;
+    // Return 1 if there is an overlap. The overlap itself may not fit into the return type
+    return (tmpbm & *bmval) != 0;
 }
 
 /**
@@ -205,30 +209,12 @@ int8_t inBitmapInt64(void *data, void *bm) {
  * @param	bm		bitmap created
  */
 void buildBitmapInt64FromRange(void *min, void *max, void *bm) {
-    if (min == NULL && max == NULL) {
-        *(uint64_t *)bm = UINT64_MAX; /* Everything */
-        return;
-    } else {
-        uint64_t minMap = 0, maxMap = 0;
-        if (min != NULL) {
-            updateBitmapInt64(min, &minMap);
-            // Turn on all bits below the bit for min value (cause the lsb are for the higher values)
-            minMap = minMap | (minMap - 1);
-            if (max == NULL) {
-                *(uint64_t *)bm = minMap;
-                return;
-            }
-        }
-        if (max != NULL) {
-            updateBitmapInt64(max, &maxMap);
-            // Turn on all bits above the bit for max value (cause the msb are for the lower values)
-            maxMap = ~(maxMap - 1);
-            if (min == NULL) {
-                *(uint64_t *)bm = maxMap;
-                return;
-            }
-        }
-        *(uint64_t *)bm = minMap & maxMap;
+    // Turn on the bits of all buckets from the one of the min value to the one of the max value
+    int8_t first = min != NULL ? bucketInt64(min) : 0;
+    int8_t last = max != NULL ? bucketInt64(max) : 63;
+    memset(bm, 0, sizeof(uint64_t));
+    for (int8_t count = first; count <= last; count++) {
+        ((uint8_t *)bm)[count / 8] |= 128 >> (count & 7);
     }
 }
 
@@ -236,19 +222,20 @@ int8_t int32Comparator(void *a, void *b) {
     int32_t i1, i2;
     memcpy(&i1, a, sizeof(int32_t));
     memcpy(&i2, b, sizeof(int32_t));
-    int32_t result = i1 - i2;
-    if (result < 0)
+    if (i1 < i2)
         return -1;
-    if (result > 0)
+    if (i1 > i2)
         return 1;
     return 0;
 }
 
 int8_t int64Comparator(void *a, void *b) {
-    int64_t result = *((int64_t *)a) - *((int64_t *)b);
-    if (result < 0)
+    int64_t i1, i2;
+    memcpy(&i1, a, sizeof(int64_t));
+    memcpy(&i2, b, sizeof(int64_t));
+    if (i1 < i2)
         return -1;
-    if (result > 0)
+    if (i1 > i2)
         return 1;
     return 0;
 }
-- 
2.43.0


From 94ab234d391c0470f67ab9bbef842f8f3ea46c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:42 +0000
Subject: [PATCH 16/45] fix: extend the sign of summed and averaged columns of
 every width

---
 lib/Distribution/embedDB.c            | 4 ++--
 src/query-interface/advancedQueries.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 603d03e..7ceec6f 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -3992,7 +3992,7 @@ void sumAdd(embedDBAggregateFunc *aggFunc, embedDBSchema *inputSchema, const voi
         int64_t val = 0;
         memcpy(&val, colPos, colSize);
         // Extend two's complement sign to fill 64 bit number if val is negative
-        int64_t sign = val & (128 << ((colSize - 1) * 8));
+        uint64_t sign = (uint64_t)val >> (colSize * 8 - 1);
         if (sign != 0) {
             memset(((int8_t *)(&val)) + colSize, 0xff, sizeof(int64_t) - colSize);
         }
@@ -4195,7 +4195,7 @@ void avgAdd(struct embedDBAggregateFunc *aggFunc, embedDBSchema *inputSchema, co
         int64_t val = 0;
         memcpy(&val, colPos, colSize);
         // Extend two's complement sign to fill 64 bit number if val is negative
-        int64_t sign = val & (128 << ((colSize - 1) * 8));
+        uint64_t sign = (uint64_t)val >> (colSize * 8 - 1);
         if (sign != 0) {
             memset(((int8_t *)(&val)) + colSize, 0xff, sizeof(int64_t) - colSize);
         }
diff --git a/src/query-interface/advancedQueries.c b/src/query-interface/advancedQueries.c
index 2a513a9..f858dc7 100644
--- a/src/query-interface/advancedQueries.c
+++ b/src/query-interface/advancedQueries.c
@@ -861,7 +861,7 @@ void sumAdd(embedDBAggregateFunc* aggFunc, embedDBSchema* inputSchema, const voi
         int64_t val = 0;
         memcpy(&val, colPos, colSize);
         // Extend two's complement sign to fill 64 bit number if val is negative
-        int64_t sign = val & (128 << ((colSize - 1) * 8));
+        uint64_t sign = (uint64_t)val >> (colSize * 8 - 1);
         if (sign != 0) {
             memset(((int8_t*)(&val)) + colSize, 0xff, sizeof(int64_t) - colSize);
         }
@@ -1064,7 +1064,7 @@ void avgAdd(struct embedDBAggregateFunc* aggFunc, embedDBSchema* inputSchema, co
         int64_t val = 0;
         memcpy(&val, colPos, colSize);
         // Extend two's complement sign to fill 64 bit number if val is negative
-        int64_t sign = val & (128 << ((colSize - 1) * 8));
+        uint64_t sign = (uint64_t)val >> (colSize * 8 - 1);
         if (sign != 0) {
             memset(((int8_t*)(&val)) + colSize, 0xff, sizeof(int64_t) - colSize);
         }
-- 
2.43.0


From a6702c970374ed0fdd9ffdd9aaef6112f42eebb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:49 +0000
Subject: [PATCH 17/45] fix: a key join stays at its end and rejects
 incompatible inputs

---
 lib/Distribution/embedDB.c            | 24 ++++++++++++++++++++----
 src/query-interface/advancedQueries.c | 24 ++++++++++++++++++++----
 2 files changed, 40 insertions(+), 8 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 7ceec6f..6f925e3 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -3785,6 +3785,7 @@ embedDBOperator *createAggregateOperator(embedDBOperator *input, int8_t (*groupf
 struct keyJoinInfo {
     embedDBOperator *input2;
     int8_t firstCall;
+    int8_t finished;
 };
 
 void initKeyJoin(embedDBOperator *op) {
@@ -3799,6 +3800,10 @@ void initKeyJoin(embedDBOperator *op) {
     embedDBSchema *schema1 = input1->schema;
     embedDBSchema *schema2 = input2->schema;
 
+    // There is nothing to return if the initialization fails
+    state->firstCall = 1;
+    state->finished = 1;
+
     // Check that join is compatible
     if (schema1->columnSizes[0] != schema2->columnSizes[0] || schema1->columnSizes[0] < 0 || schema2->columnSizes[0] < 0) {
 #ifdef PRINT_ERRORS
@@ -3829,15 +3834,17 @@ void initKeyJoin(embedDBOperator *op) {
     }
 
     // Allocate recordBuffer
-    op->recordBuffer = malloc(getRecordSizeFromSchema(op->schema));
     if (op->recordBuffer == NULL) {
+        op->recordBuffer = malloc(getRecordSizeFromSchema(op->schema));
+        if (op->recordBuffer == NULL) {
 #ifdef PRINT_ERRORS
-        printf("ERROR: Failed to malloc while initializing join operator\n");
+            printf("ERROR: Failed to malloc while initializing join operator\n");
 #endif
-        return;
+            return;
+        }
     }
 
-    state->firstCall = 1;
+    state->finished = 0;
 }
 
 int8_t nextKeyJoin(embedDBOperator *op) {
@@ -3847,6 +3854,11 @@ int8_t nextKeyJoin(embedDBOperator *op) {
     embedDBSchema *schema1 = input1->schema;
     embedDBSchema *schema2 = input2->schema;
 
+    // An input that has ended may have changed its buffer, so the records can not be compared again
+    if (state->finished) {
+        return 0;
+    }
+
     // We've already used this match
     void *record1 = input1->recordBuffer;
     void *record2 = input2->recordBuffer;
@@ -3858,6 +3870,7 @@ int8_t nextKeyJoin(embedDBOperator *op) {
 
         if (!input1->next(input1) || !input2->next(input2)) {
             // If this case happens, you goofed, but I'll handle it anyway
+            state->finished = 1;
             return 0;
         }
         goto check;
@@ -3869,18 +3882,21 @@ int8_t nextKeyJoin(embedDBOperator *op) {
         if (comp == 0) {
             // Move both forward because if they match at this point, they've already been matched
             if (!input1->next(input1) || !input2->next(input2)) {
+                state->finished = 1;
                 return 0;
             }
         } else if (comp < 0) {
             // Move record 1 forward
             if (!input1->next(input1)) {
                 // We are out of records on one side. Given the assumption that the inputs are sorted, there are no more possible joins
+                state->finished = 1;
                 return 0;
             }
         } else {
             // Move record 2 forward
             if (!input2->next(input2)) {
                 // We are out of records on one side. Given the assumption that the inputs are sorted, there are no more possible joins
+                state->finished = 1;
                 return 0;
             }
         }
diff --git a/src/query-interface/advancedQueries.c b/src/query-interface/advancedQueries.c
index f858dc7..14a4e93 100644
--- a/src/query-interface/advancedQueries.c
+++ b/src/query-interface/advancedQueries.c
@@ -654,6 +654,7 @@ embedDBOperator* createAggregateOperator(embedDBOperator* input, int8_t (*groupf
 struct keyJoinInfo {
     embedDBOperator* input2;
     int8_t firstCall;
+    int8_t finished;
 };
 
 void initKeyJoin(embedDBOperator* op) {
@@ -668,6 +669,10 @@ void initKeyJoin(embedDBOperator* op) {
     embedDBSchema* schema1 = input1->schema;
     embedDBSchema* schema2 = input2->schema;
 
+    // There is nothing to return if the initialization fails
+    state->firstCall = 1;
+    state->finished = 1;
+
     // Check that join is compatible
     if (schema1->columnSizes[0] != schema2->columnSizes[0] || schema1->columnSizes[0] < 0 || schema2->columnSizes[0] < 0) {
 #ifdef PRINT_ERRORS
@@ -698,15 +703,17 @@ void initKeyJoin(embedDBOperator* op) {
     }
 
     // Allocate recordBuffer
-    op->recordBuffer = malloc(getRecordSizeFromSchema(op->schema));
     if (op->recordBuffer == NULL) {
+        op->recordBuffer = malloc(getRecordSizeFromSchema(op->schema));
+        if (op->recordBuffer == NULL) {
 #ifdef PRINT_ERRORS
-        printf("ERROR: Failed to malloc while initializing join operator\n");
+            printf("ERROR: Failed to malloc while initializing join operator\n");
 #endif
-        return;
+            return;
+        }
     }
 
-    state->firstCall = 1;
+    state->finished = 0;
 }
 
 int8_t nextKeyJoin(embedDBOperator* op) {
@@ -716,6 +723,11 @@ int8_t nextKeyJoin(embedDBOperator* op) {
     embedDBSchema* schema1 = input1->schema;
     embedDBSchema* schema2 = input2->schema;
 
+    // An input that has ended may have changed its buffer, so the records can not be compared again
+    if (state->finished) {
+        return 0;
+    }
+
     // We've already used this match
     void* record1 = input1->recordBuffer;
     void* record2 = input2->recordBuffer;
@@ -727,6 +739,7 @@ int8_t nextKeyJoin(embedDBOperator* op) {
 
         if (!input1->next(input1) || !input2->next(input2)) {
             // If this case happens, you goofed, but I'll handle it anyway
+            state->finished = 1;
             return 0;
         }
         goto check;
@@ -738,18 +751,21 @@ int8_t nextKeyJoin(embedDBOperator* op) {
         if (comp == 0) {
             // Move both forward because if they match at this point, they've already been matched
             if (!input1->next(input1) || !input2->next(input2)) {
+                state->finished = 1;
                 return 0;
             }
         } else if (comp < 0) {
             // Move record 1 forward
             if (!input1->next(input1)) {
                 // We are out of records on one side. Given the assumption that the inputs are sorted, there are no more possible joins
+                state->finished = 1;
                 return 0;
             }
         } else {
             // Move record 2 forward
             if (!input2->next(input2)) {
                 // We are out of records on one side. Given the assumption that the inputs are sorted, there are no more possible joins
+                state->finished = 1;
                 return 0;
             }
         }
-- 
2.43.0


From e870b975fc8743fbefa3771d564fbd6aed65dbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:26 +0000
Subject: [PATCH 18/45] fix: validate the whole configuration before allocating
 or opening anything

---
 lib/Distribution/embedDB.c | 236 +++++++++++++++++++++++++------------
 src/embedDB/embedDB.c      | 236 +++++++++++++++++++++++++------------
 2 files changed, 316 insertions(+), 156 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 6f925e3..22caa20 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -627,12 +627,14 @@ void *embedDBGetMaxKey(embedDBState *state, void *buffer) {
 }
 
 /**
- * @brief   Initialize embedDB structure.
- * @param   state           embedDB algorithm state structure
- * @param   indexMaxError   max error of indexing structure (spline)
- * @return  Return 0 if success. Non-zero value if error.
+ * @brief   Checks that the configuration is valid before anything is allocated and any file is opened.
+ * @param   state   embedDB algorithm state structure
+ * @return  Return 0 if the configuration is valid, -1 if not.
  */
-int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
+int8_t validateConfiguration(embedDBState *state) {
+    bool usingIndex = EMBEDDB_USING_INDEX(state->parameters);
+    bool usingVarData = EMBEDDB_USING_VDATA(state->parameters);
+
     if (state->keySize > 8) {
 #ifdef PRINT_ERRORS
         printf("ERROR: Key size is too large. Max key size is 8 bytes.\n");
@@ -640,6 +642,34 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
         return -1;
     }
 
+    if (state->keySize < 1 || state->dataSize < 0) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: The size of the key must be positive and the size of the data cannot be negative.\n");
+#endif
+        return -1;
+    }
+
+    if (state->fileInterface == NULL || state->buffer == NULL) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: No file interface or no buffer provided!\n");
+#endif
+        return -1;
+    }
+
+    if (state->dataFile == NULL) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: No data file provided!\n");
+#endif
+        return -1;
+    }
+
+    if (state->eraseSizeInPages < 1) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: The erase size must be at least one page.\n");
+#endif
+        return -1;
+    }
+
     /* check the number of allocated pages is a multiple of the erase size */
     if (state->numDataPages % state->eraseSizeInPages != 0) {
 #ifdef PRINT_ERRORS
@@ -655,38 +685,144 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
         return -1;
     }
 
-    state->recordSize = state->keySize + state->dataSize;
-    if (EMBEDDB_USING_VDATA(state->parameters)) {
+    if (state->numDataPages < (usingIndex * 2 + 2) * state->eraseSizeInPages) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: Number of pages allocated must be at least twice erase block size for embedDB and four times when using indexing. Memory pages: %d\n", state->numDataPages);
+#endif
+        return -1;
+    }
+
+    if ((usingIndex || EMBEDDB_USING_BMAP(state->parameters)) && state->bitmapSize < 1) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: The bitmap must have at least one byte.\n");
+#endif
+        return -1;
+    }
+
+    if (usingIndex) {
+        if (state->numIndexPages % state->eraseSizeInPages != 0) {
+#ifdef PRINT_ERRORS
+            printf("ERROR: The number of allocated index pages must be divisible by the erase size in pages.\n");
+#endif
+            return -1;
+        }
+
+        if (state->numIndexPages < state->eraseSizeInPages * 2) {
+#ifdef PRINT_ERRORS
+            printf("ERROR: Minimum index space is two erase blocks\n");
+#endif
+            return -1;
+        }
+
+        if (state->indexFile == NULL) {
+#ifdef PRINT_ERRORS
+            printf("ERROR: No index file provided!\n");
+#endif
+            return -1;
+        }
+
+        if (state->pageSize < 16 + state->bitmapSize) {
+#ifdef PRINT_ERRORS
+            printf("ERROR: The page size is too small for an index record.\n");
+#endif
+            return -1;
+        }
+    }
+
+    if (usingVarData) {
         if (state->numVarPages % state->eraseSizeInPages != 0) {
 #ifdef PRINT_ERRORS
             printf("ERROR: The number of allocated variable data pages must be divisible by the erase size in pages.\n");
 #endif
             return -1;
         }
-        state->recordSize += 4;
-    }
 
-    state->indexMaxError = indexMaxError;
+        if (state->numVarPages < state->eraseSizeInPages * 2) {
+#ifdef PRINT_ERRORS
+            printf("ERROR: Minimum variable data space is two erase blocks\n");
+#endif
+            return -1;
+        }
 
-    /* Calculate block header size */
+        if (state->varFile == NULL) {
+#ifdef PRINT_ERRORS
+            printf("ERROR: No variable data file provided!\n");
+#endif
+            return -1;
+        }
 
-    /* Header size depends on bitmap size: 6 + X bytes: 4 byte id, 2 for record count, X for bitmap. */
-    state->headerSize = 6;
-    if (EMBEDDB_USING_INDEX(state->parameters)) {
-        if (state->numIndexPages % state->eraseSizeInPages != 0) {
+        if (state->pageSize <= state->keySize + sizeof(id_t)) {
 #ifdef PRINT_ERRORS
-            printf("ERROR: The number of allocated index pages must be divisible by the erase size in pages.\n");
+            printf("ERROR: The page size is too small for variable data.\n");
 #endif
             return -1;
         }
     }
 
+    if (state->bufferSizeInBlocks < 2 + (usingIndex ? 2 : 0) + (usingVarData ? 2 : 0)) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: embedDB requires at least 2 page buffers, 2 more if using an index and 2 more if using variable records.\n");
+#endif
+        return -1;
+    }
+
+    if (!EMBEDDB_USING_BINARY_SEARCH(state->parameters) && state->numSplinePoints < 4) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: Unable to setup spline with less than 4 points.");
+#endif
+        return -1;
+    }
+
+    return 0;
+}
+
+/**
+ * @brief   Frees the learned index if it is used.
+ * @param   state   embedDB algorithm state structure
+ */
+void closeSpline(embedDBState *state) {
+    if (!EMBEDDB_USING_BINARY_SEARCH(state->parameters) && state->spl != NULL) {
+        splineClose(state->spl);
+        free(state->spl);
+        state->spl = NULL;
+    }
+}
+
+/**
+ * @brief   Initialize embedDB structure.
+ * @param   state           embedDB algorithm state structure
+ * @param   indexMaxError   max error of indexing structure (spline)
+ * @return  Return 0 if success. Non-zero value if error.
+ */
+int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
+    if (validateConfiguration(state) != 0) {
+        return -1;
+    }
+
+    state->recordSize = state->keySize + state->dataSize;
+    if (EMBEDDB_USING_VDATA(state->parameters)) {
+        state->recordSize += 4;
+    }
+
+    state->indexMaxError = indexMaxError;
+
+    /* Calculate block header size */
+
+    /* Header size depends on bitmap size: 6 + X bytes: 4 byte id, 2 for record count, X for bitmap. */
+    state->headerSize = 6;
     if (EMBEDDB_USING_INDEX(state->parameters) || EMBEDDB_USING_BMAP(state->parameters))
         state->headerSize += state->bitmapSize;
 
     if (EMBEDDB_USING_MAX_MIN(state->parameters))
         state->headerSize += state->keySize * 2 + state->dataSize * 2;
 
+    if (state->pageSize < state->headerSize + state->recordSize) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: The page size is too small for a record.\n");
+#endif
+        return -1;
+    }
+
     /* Flags to show that these values have not been initalized with actual data yet */
     state->bufferedPageId = -1;
     state->bufferedIndexPageId = -1;
@@ -701,21 +837,8 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
     /* Allocate first page of buffer as output page */
     initBufferPage(state, 0);
 
-    if (state->numDataPages < (EMBEDDB_USING_INDEX(state->parameters) * 2 + 2) * state->eraseSizeInPages) {
-#ifdef PRINT_ERRORS
-        printf("ERROR: Number of pages allocated must be at least twice erase block size for embedDB and four times when using indexing. Memory pages: %d\n", state->numDataPages);
-#endif
-        return -1;
-    }
-
     /* Initalize the spline structure if being used */
     if (!EMBEDDB_USING_BINARY_SEARCH(state->parameters)) {
-        if (state->numSplinePoints < 4) {
-#ifdef PRINT_ERRORS
-            printf("ERROR: Unable to setup spline with less than 4 points.");
-#endif
-            return -1;
-        }
         state->spl = malloc(sizeof(spline));
         splineInit(state->spl, state->numSplinePoints, indexMaxError, state->keySize);
     } else {
@@ -727,46 +850,35 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
     dataInitResult = embedDBInitData(state);
 
     if (dataInitResult != 0) {
+        closeSpline(state);
         return dataInitResult;
     }
 
     /* Allocate file and buffer for index */
     int8_t indexInitResult = 0;
     if (EMBEDDB_USING_INDEX(state->parameters)) {
-        if (state->bufferSizeInBlocks < 4) {
-#ifdef PRINT_ERRORS
-            printf("ERROR: embedDB using index requires at least 4 page buffers.\n");
-#endif
-            return -1;
-        } else {
-            indexInitResult = embedDBInitIndex(state);
-        }
+        indexInitResult = embedDBInitIndex(state);
     } else {
         state->indexFile = NULL;
         state->numIndexPages = 0;
     }
 
     if (indexInitResult != 0) {
+        closeSpline(state);
         return indexInitResult;
     }
 
     /* Allocate file and buffer for variable data */
     int8_t varDataInitResult = 0;
     if (EMBEDDB_USING_VDATA(state->parameters)) {
-        if (state->bufferSizeInBlocks < 4 + (EMBEDDB_USING_INDEX(state->parameters) ? 2 : 0)) {
-#ifdef PRINT_ERRORS
-            printf("ERROR: embedDB using variable records requires at least 4 page buffers if there is no index and 6 if there is.\n");
-#endif
-            return -1;
-        } else {
-            varDataInitResult = embedDBInitVarData(state);
-        }
+        varDataInitResult = embedDBInitVarData(state);
     } else {
         state->varFile = NULL;
         state->numVarPages = 0;
     }
 
     if (varDataInitResult != 0) {
+        closeSpline(state);
         return varDataInitResult;
     }
 
@@ -780,13 +892,6 @@ int8_t embedDBInitData(embedDBState *state) {
     state->numAvailDataPages = state->numDataPages;
     state->minDataPageId = 0;
 
-    if (state->dataFile == NULL) {
-#ifdef PRINT_ERRORS
-        printf("ERROR: No data file provided!\n");
-#endif
-        return -1;
-    }
-
     if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) {
         state->numAvailDataPages -= (state->eraseSizeInPages * 2);
         state->nextRLCPhysicalPageLocation = state->eraseSizeInPages;
@@ -1054,27 +1159,6 @@ int8_t embedDBInitIndex(embedDBState *state) {
     state->numAvailIndexPages = state->numIndexPages;
     state->minIndexPageId = 0;
 
-    if (state->numIndexPages < state->eraseSizeInPages * 2) {
-#ifdef PRINT_ERRORS
-        printf("ERROR: Minimum index space is two erase blocks\n");
-#endif
-        return -1;
-    }
-
-    if (state->numIndexPages % state->eraseSizeInPages != 0) {
-#ifdef PRINT_ERRORS
-        printf("ERROR: Ensure index space is a multiple of erase block size\n");
-#endif
-        return -1;
-    }
-
-    if (state->indexFile == NULL) {
-#ifdef PRINT_ERRORS
-        printf("ERROR: No index file provided!\n");
-#endif
-        return -1;
-    }
-
     /* An index that was left behind by other data must not be used, so only recover it if there is data */
     if (!EMBEDDB_RESETING_DATA(state->parameters) && state->nextDataPageId > 0) {
         int8_t openStatus = state->fileInterface->open(state->indexFile, EMBEDDB_FILE_MODE_R_PLUS_B);
@@ -2974,11 +3058,7 @@ void embedDBClose(embedDBState *state) {
     if (state->varFile != NULL) {
         state->fileInterface->close(state->varFile);
     }
-    if (!EMBEDDB_USING_BINARY_SEARCH(state->parameters)) {
-        splineClose(state->spl);
-        free(state->spl);
-        state->spl = NULL;
-    }
+    closeSpline(state);
 }
 
 /************************************************************schema.c************************************************************/
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 3e3e3bf..ed0abd5 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -141,12 +141,14 @@ void *embedDBGetMaxKey(embedDBState *state, void *buffer) {
 }
 
 /**
- * @brief   Initialize embedDB structure.
- * @param   state           embedDB algorithm state structure
- * @param   indexMaxError   max error of indexing structure (spline)
- * @return  Return 0 if success. Non-zero value if error.
+ * @brief   Checks that the configuration is valid before anything is allocated and any file is opened.
+ * @param   state   embedDB algorithm state structure
+ * @return  Return 0 if the configuration is valid, -1 if not.
  */
-int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
+int8_t validateConfiguration(embedDBState *state) {
+    bool usingIndex = EMBEDDB_USING_INDEX(state->parameters);
+    bool usingVarData = EMBEDDB_USING_VDATA(state->parameters);
+
     if (state->keySize > 8) {
 #ifdef PRINT_ERRORS
         printf("ERROR: Key size is too large. Max key size is 8 bytes.\n");
@@ -154,6 +156,34 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
         return -1;
     }
 
+    if (state->keySize < 1 || state->dataSize < 0) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: The size of the key must be positive and the size of the data cannot be negative.\n");
+#endif
+        return -1;
+    }
+
+    if (state->fileInterface == NULL || state->buffer == NULL) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: No file interface or no buffer provided!\n");
+#endif
+        return -1;
+    }
+
+    if (state->dataFile == NULL) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: No data file provided!\n");
+#endif
+        return -1;
+    }
+
+    if (state->eraseSizeInPages < 1) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: The erase size must be at least one page.\n");
+#endif
+        return -1;
+    }
+
     /* check the number of allocated pages is a multiple of the erase size */
     if (state->numDataPages % state->eraseSizeInPages != 0) {
 #ifdef PRINT_ERRORS
@@ -169,38 +199,144 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
         return -1;
     }
 
-    state->recordSize = state->keySize + state->dataSize;
-    if (EMBEDDB_USING_VDATA(state->parameters)) {
+    if (state->numDataPages < (usingIndex * 2 + 2) * state->eraseSizeInPages) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: Number of pages allocated must be at least twice erase block size for embedDB and four times when using indexing. Memory pages: %d\n", state->numDataPages);
+#endif
+        return -1;
+    }
+
+    if ((usingIndex || EMBEDDB_USING_BMAP(state->parameters)) && state->bitmapSize < 1) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: The bitmap must have at least one byte.\n");
+#endif
+        return -1;
+    }
+
+    if (usingIndex) {
+        if (state->numIndexPages % state->eraseSizeInPages != 0) {
+#ifdef PRINT_ERRORS
+            printf("ERROR: The number of allocated index pages must be divisible by the erase size in pages.\n");
+#endif
+            return -1;
+        }
+
+        if (state->numIndexPages < state->eraseSizeInPages * 2) {
+#ifdef PRINT_ERRORS
+            printf("ERROR: Minimum index space is two erase blocks\n");
+#endif
+            return -1;
+        }
+
+        if (state->indexFile == NULL) {
+#ifdef PRINT_ERRORS
+            printf("ERROR: No index file provided!\n");
+#endif
+            return -1;
+        }
+
+        if (state->pageSize < 16 + state->bitmapSize) {
+#ifdef PRINT_ERRORS
+            printf("ERROR: The page size is too small for an index record.\n");
+#endif
+            return -1;
+        }
+    }
+
+    if (usingVarData) {
         if (state->numVarPages % state->eraseSizeInPages != 0) {
 #ifdef PRINT_ERRORS
             printf("ERROR: The number of allocated variable data pages must be divisible by the erase size in pages.\n");
 #endif
             return -1;
         }
-        state->recordSize += 4;
-    }
 
-    state->indexMaxError = indexMaxError;
+        if (state->numVarPages < state->eraseSizeInPages * 2) {
+#ifdef PRINT_ERRORS
+            printf("ERROR: Minimum variable data space is two erase blocks\n");
+#endif
+            return -1;
+        }
 
-    /* Calculate block header size */
+        if (state->varFile == NULL) {
+#ifdef PRINT_ERRORS
+            printf("ERROR: No variable data file provided!\n");
+#endif
+            return -1;
+        }
 
-    /* Header size depends on bitmap size: 6 + X bytes: 4 byte id, 2 for record count, X for bitmap. */
-    state->headerSize = 6;
-    if (EMBEDDB_USING_INDEX(state->parameters)) {
-        if (state->numIndexPages % state->eraseSizeInPages != 0) {
+        if (state->pageSize <= state->keySize + sizeof(id_t)) {
 #ifdef PRINT_ERRORS
-            printf("ERROR: The number of allocated index pages must be divisible by the erase size in pages.\n");
+            printf("ERROR: The page size is too small for variable data.\n");
 #endif
             return -1;
         }
     }
 
+    if (state->bufferSizeInBlocks < 2 + (usingIndex ? 2 : 0) + (usingVarData ? 2 : 0)) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: embedDB requires at least 2 page buffers, 2 more if using an index and 2 more if using variable records.\n");
+#endif
+        return -1;
+    }
+
+    if (!EMBEDDB_USING_BINARY_SEARCH(state->parameters) && state->numSplinePoints < 4) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: Unable to setup spline with less than 4 points.");
+#endif
+        return -1;
+    }
+
+    return 0;
+}
+
+/**
+ * @brief   Frees the learned index if it is used.
+ * @param   state   embedDB algorithm state structure
+ */
+void closeSpline(embedDBState *state) {
+    if (!EMBEDDB_USING_BINARY_SEARCH(state->parameters) && state->spl != NULL) {
+        splineClose(state->spl);
+        free(state->spl);
+        state->spl = NULL;
+    }
+}
+
+/**
+ * @brief   Initialize embedDB structure.
+ * @param   state           embedDB algorithm state structure
+ * @param   indexMaxError   max error of indexing structure (spline)
+ * @return  Return 0 if success. Non-zero value if error.
+ */
+int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
+    if (validateConfiguration(state) != 0) {
+        return -1;
+    }
+
+    state->recordSize = state->keySize + state->dataSize;
+    if (EMBEDDB_USING_VDATA(state->parameters)) {
+        state->recordSize += 4;
+    }
+
+    state->indexMaxError = indexMaxError;
+
+    /* Calculate block header size */
+
+    /* Header size depends on bitmap size: 6 + X bytes: 4 byte id, 2 for record count, X for bitmap. */
+    state->headerSize = 6;
     if (EMBEDDB_USING_INDEX(state->parameters) || EMBEDDB_USING_BMAP(state->parameters))
         state->headerSize += state->bitmapSize;
 
     if (EMBEDDB_USING_MAX_MIN(state->parameters))
         state->headerSize += state->keySize * 2 + state->dataSize * 2;
 
+    if (state->pageSize < state->headerSize + state->recordSize) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: The page size is too small for a record.\n");
+#endif
+        return -1;
+    }
+
     /* Flags to show that these values have not been initalized with actual data yet */
     state->bufferedPageId = -1;
     state->bufferedIndexPageId = -1;
@@ -215,21 +351,8 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
     /* Allocate first page of buffer as output page */
     initBufferPage(state, 0);
 
-    if (state->numDataPages < (EMBEDDB_USING_INDEX(state->parameters) * 2 + 2) * state->eraseSizeInPages) {
-#ifdef PRINT_ERRORS
-        printf("ERROR: Number of pages allocated must be at least twice erase block size for embedDB and four times when using indexing. Memory pages: %d\n", state->numDataPages);
-#endif
-        return -1;
-    }
-
     /* Initalize the spline structure if being used */
     if (!EMBEDDB_USING_BINARY_SEARCH(state->parameters)) {
-        if (state->numSplinePoints < 4) {
-#ifdef PRINT_ERRORS
-            printf("ERROR: Unable to setup spline with less than 4 points.");
-#endif
-            return -1;
-        }
         state->spl = malloc(sizeof(spline));
         splineInit(state->spl, state->numSplinePoints, indexMaxError, state->keySize);
     } else {
@@ -241,46 +364,35 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
     dataInitResult = embedDBInitData(state);
 
     if (dataInitResult != 0) {
+        closeSpline(state);
         return dataInitResult;
     }
 
     /* Allocate file and buffer for index */
     int8_t indexInitResult = 0;
     if (EMBEDDB_USING_INDEX(state->parameters)) {
-        if (state->bufferSizeInBlocks < 4) {
-#ifdef PRINT_ERRORS
-            printf("ERROR: embedDB using index requires at least 4 page buffers.\n");
-#endif
-            return -1;
-        } else {
-            indexInitResult = embedDBInitIndex(state);
-        }
+        indexInitResult = embedDBInitIndex(state);
     } else {
         state->indexFile = NULL;
         state->numIndexPages = 0;
     }
 
     if (indexInitResult != 0) {
+        closeSpline(state);
         return indexInitResult;
     }
 
     /* Allocate file and buffer for variable data */
     int8_t varDataInitResult = 0;
     if (EMBEDDB_USING_VDATA(state->parameters)) {
-        if (state->bufferSizeInBlocks < 4 + (EMBEDDB_USING_INDEX(state->parameters) ? 2 : 0)) {
-#ifdef PRINT_ERRORS
-            printf("ERROR: embedDB using variable records requires at least 4 page buffers if there is no index and 6 if there is.\n");
-#endif
-            return -1;
-        } else {
-            varDataInitResult = embedDBInitVarData(state);
-        }
+        varDataInitResult = embedDBInitVarData(state);
     } else {
         state->varFile = NULL;
         state->numVarPages = 0;
     }
 
     if (varDataInitResult != 0) {
+        closeSpline(state);
         return varDataInitResult;
     }
 
@@ -294,13 +406,6 @@ int8_t embedDBInitData(embedDBState *state) {
     state->numAvailDataPages = state->numDataPages;
     state->minDataPageId = 0;
 
-    if (state->dataFile == NULL) {
-#ifdef PRINT_ERRORS
-        printf("ERROR: No data file provided!\n");
-#endif
-        return -1;
-    }
-
     if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) {
         state->numAvailDataPages -= (state->eraseSizeInPages * 2);
         state->nextRLCPhysicalPageLocation = state->eraseSizeInPages;
@@ -568,27 +673,6 @@ int8_t embedDBInitIndex(embedDBState *state) {
     state->numAvailIndexPages = state->numIndexPages;
     state->minIndexPageId = 0;
 
-    if (state->numIndexPages < state->eraseSizeInPages * 2) {
-#ifdef PRINT_ERRORS
-        printf("ERROR: Minimum index space is two erase blocks\n");
-#endif
-        return -1;
-    }
-
-    if (state->numIndexPages % state->eraseSizeInPages != 0) {
-#ifdef PRINT_ERRORS
-        printf("ERROR: Ensure index space is a multiple of erase block size\n");
-#endif
-        return -1;
-    }
-
-    if (state->indexFile == NULL) {
-#ifdef PRINT_ERRORS
-        printf("ERROR: No index file provided!\n");
-#endif
-        return -1;
-    }
-
     /* An index that was left behind by other data must not be used, so only recover it if there is data */
     if (!EMBEDDB_RESETING_DATA(state->parameters) && state->nextDataPageId > 0) {
         int8_t openStatus = state->fileInterface->open(state->indexFile, EMBEDDB_FILE_MODE_R_PLUS_B);
@@ -2487,9 +2571,5 @@ void embedDBClose(embedDBState *state) {
     if (state->varFile != NULL) {
         state->fileInterface->close(state->varFile);
     }
-    if (!EMBEDDB_USING_BINARY_SEARCH(state->parameters)) {
-        splineClose(state->spl);
-        free(state->spl);
-        state->spl = NULL;
-    }
+    closeSpline(state);
 }
-- 
2.43.0


From 30337ecd86c3435f3904472930a8c7cb90531125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:46 +0000
Subject: [PATCH 19/45] fix: a variable data stream ends when its data is
 overwritten by newer data

---
 lib/Distribution/embedDB.c | 41 +++++++++++++++++++++++++++-----------
 lib/Distribution/embedDB.h |  1 +
 src/embedDB/embedDB.c      | 41 +++++++++++++++++++++++++++-----------
 src/embedDB/embedDB.h      |  1 +
 4 files changed, 60 insertions(+), 24 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 22caa20..6c2b022 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -2560,6 +2560,8 @@ int8_t embedDBSetupVarDataStream(embedDBState *state, void *key, embedDBVarDataS
     uint32_t pageOffset = varDataAddr % state->pageSize;
     uint32_t dataLen = 0;
     memcpy(&dataLen, (int8_t *)varBuf + pageOffset, sizeof(uint32_t));
+    id_t varPageId = 0;
+    memcpy(&varPageId, varBuf, sizeof(id_t));
 
     // Move var data address to the beginning of the data, past the data length
     varDataAddr = (varDataAddr + sizeof(uint32_t)) % (state->numVarPages * state->pageSize);
@@ -2568,6 +2570,7 @@ int8_t embedDBSetupVarDataStream(embedDBState *state, void *key, embedDBVarDataS
     if (varDataAddr % state->pageSize == 0) {
         varDataAddr += state->variableDataHeaderSize;
         varDataAddr %= (state->numVarPages * state->pageSize);
+        varPageId++;
     }
 
     // Create varDataStream
@@ -2583,11 +2586,31 @@ int8_t embedDBSetupVarDataStream(embedDBState *state, void *key, embedDBVarDataS
     varDataStream->totalBytes = dataLen;
     varDataStream->bytesRead = 0;
     varDataStream->fileOffset = varDataAddr;
+    varDataStream->pageId = varPageId;
 
     *varData = varDataStream;
     return 0;
 }
 
+/**
+ * @brief	Reads the page a variable data stream is positioned at.
+ * @param	state	embedDB algorithm state structure
+ * @param	stream	Variable data stream
+ * @return	Return 0 if success, -1 if the page cannot be read or its data has been overwritten by newer data.
+ */
+int8_t readVarDataStreamPage(embedDBState *state, embedDBVarDataStream *stream) {
+    uint32_t pageNum = (stream->fileOffset / state->pageSize) % state->numVarPages;
+    if (readVariablePage(state, pageNum) != 0) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: Couldn't read variable data page %d\n", pageNum);
+#endif
+        return -1;
+    }
+
+    void *varDataBuf = (int8_t *)state->buffer + state->pageSize * EMBEDDB_VAR_READ_BUFFER(state->parameters);
+    return memcmp(varDataBuf, &stream->pageId, sizeof(id_t)) == 0 ? 0 : -1;
+}
+
 /**
  * @brief	Reads data from variable data stream into the given buffer.
  * @param	state	embedDB algorithm state structure
@@ -2607,14 +2630,11 @@ uint32_t embedDBVarDataStreamRead(embedDBState *state, embedDBVarDataStream *str
     // The last read may have ended on a page boundary, so we need to move past the header
     if (stream->bytesRead < stream->totalBytes && stream->fileOffset % state->pageSize == 0) {
         stream->fileOffset += state->variableDataHeaderSize;
+        stream->pageId++;
     }
 
     // Read in var page containing the data to read
-    uint32_t pageNum = (stream->fileOffset / state->pageSize) % state->numVarPages;
-    if (readVariablePage(state, pageNum) != 0) {
-#ifdef PRINT_ERRORS
-        printf("ERROR: Couldn't read variable data page %d\n", pageNum);
-#endif
+    if (readVarDataStreamPage(state, stream) != 0) {
         return 0;
     }
 
@@ -2631,15 +2651,12 @@ uint32_t embedDBVarDataStreamRead(embedDBState *state, embedDBVarDataStream *str
 
         // If we need to keep reading, read the next page
         if (amtRead < length && stream->bytesRead < stream->totalBytes) {
-            pageNum = (pageNum + 1) % state->numVarPages;
-            if (readVariablePage(state, pageNum) != 0) {
-#ifdef PRINT_ERRORS
-                printf("ERROR: Couldn't read variable data page %d\n", pageNum);
-#endif
-                return amtRead;
-            }
             // Skip past the header
             stream->fileOffset += state->variableDataHeaderSize;
+            stream->pageId++;
+            if (readVarDataStreamPage(state, stream) != 0) {
+                return amtRead;
+            }
         }
     }
 
diff --git a/lib/Distribution/embedDB.h b/lib/Distribution/embedDB.h
index 31134f1..0ee6a68 100644
--- a/lib/Distribution/embedDB.h
+++ b/lib/Distribution/embedDB.h
@@ -443,6 +443,7 @@ typedef struct {
     uint32_t bytesRead;  /* Number of bytes read so far */
     uint32_t dataStart;  /* Start of data as an offset in bytes from the beginning of the file */
     uint32_t fileOffset; /* Where the iterator should start reading data next time (offset from start of file) */
+    id_t pageId;         /* Logical id of the page at fileOffset. If the page has another id, the data has been overwritten */
 } embedDBVarDataStream;
 
 typedef enum {
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index ed0abd5..a3cbe77 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -2073,6 +2073,8 @@ int8_t embedDBSetupVarDataStream(embedDBState *state, void *key, embedDBVarDataS
     uint32_t pageOffset = varDataAddr % state->pageSize;
     uint32_t dataLen = 0;
     memcpy(&dataLen, (int8_t *)varBuf + pageOffset, sizeof(uint32_t));
+    id_t varPageId = 0;
+    memcpy(&varPageId, varBuf, sizeof(id_t));
 
     // Move var data address to the beginning of the data, past the data length
     varDataAddr = (varDataAddr + sizeof(uint32_t)) % (state->numVarPages * state->pageSize);
@@ -2081,6 +2083,7 @@ int8_t embedDBSetupVarDataStream(embedDBState *state, void *key, embedDBVarDataS
     if (varDataAddr % state->pageSize == 0) {
         varDataAddr += state->variableDataHeaderSize;
         varDataAddr %= (state->numVarPages * state->pageSize);
+        varPageId++;
     }
 
     // Create varDataStream
@@ -2096,11 +2099,31 @@ int8_t embedDBSetupVarDataStream(embedDBState *state, void *key, embedDBVarDataS
     varDataStream->totalBytes = dataLen;
     varDataStream->bytesRead = 0;
     varDataStream->fileOffset = varDataAddr;
+    varDataStream->pageId = varPageId;
 
     *varData = varDataStream;
     return 0;
 }
 
+/**
+ * @brief	Reads the page a variable data stream is positioned at.
+ * @param	state	embedDB algorithm state structure
+ * @param	stream	Variable data stream
+ * @return	Return 0 if success, -1 if the page cannot be read or its data has been overwritten by newer data.
+ */
+int8_t readVarDataStreamPage(embedDBState *state, embedDBVarDataStream *stream) {
+    uint32_t pageNum = (stream->fileOffset / state->pageSize) % state->numVarPages;
+    if (readVariablePage(state, pageNum) != 0) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: Couldn't read variable data page %d\n", pageNum);
+#endif
+        return -1;
+    }
+
+    void *varDataBuf = (int8_t *)state->buffer + state->pageSize * EMBEDDB_VAR_READ_BUFFER(state->parameters);
+    return memcmp(varDataBuf, &stream->pageId, sizeof(id_t)) == 0 ? 0 : -1;
+}
+
 /**
  * @brief	Reads data from variable data stream into the given buffer.
  * @param	state	embedDB algorithm state structure
@@ -2120,14 +2143,11 @@ uint32_t embedDBVarDataStreamRead(embedDBState *state, embedDBVarDataStream *str
     // The last read may have ended on a page boundary, so we need to move past the header
     if (stream->bytesRead < stream->totalBytes && stream->fileOffset % state->pageSize == 0) {
         stream->fileOffset += state->variableDataHeaderSize;
+        stream->pageId++;
     }
 
     // Read in var page containing the data to read
-    uint32_t pageNum = (stream->fileOffset / state->pageSize) % state->numVarPages;
-    if (readVariablePage(state, pageNum) != 0) {
-#ifdef PRINT_ERRORS
-        printf("ERROR: Couldn't read variable data page %d\n", pageNum);
-#endif
+    if (readVarDataStreamPage(state, stream) != 0) {
         return 0;
     }
 
@@ -2144,15 +2164,12 @@ uint32_t embedDBVarDataStreamRead(embedDBState *state, embedDBVarDataStream *str
 
         // If we need to keep reading, read the next page
         if (amtRead < length && stream->bytesRead < stream->totalBytes) {
-            pageNum = (pageNum + 1) % state->numVarPages;
-            if (readVariablePage(state, pageNum) != 0) {
-#ifdef PRINT_ERRORS
-                printf("ERROR: Couldn't read variable data page %d\n", pageNum);
-#endif
-                return amtRead;
-            }
             // Skip past the header
             stream->fileOffset += state->variableDataHeaderSize;
+            stream->pageId++;
+            if (readVarDataStreamPage(state, stream) != 0) {
+                return amtRead;
+            }
         }
     }
 
diff --git a/src/embedDB/embedDB.h b/src/embedDB/embedDB.h
index 1479ba0..64e21dd 100644
--- a/src/embedDB/embedDB.h
+++ b/src/embedDB/embedDB.h
@@ -263,6 +263,7 @@ typedef struct {
     uint32_t bytesRead;  /* Number of bytes read so far */
     uint32_t dataStart;  /* Start of data as an offset in bytes from the beginning of the file */
     uint32_t fileOffset; /* Where the iterator should start reading data next time (offset from start of file) */
+    id_t pageId;         /* Logical id of the page at fileOffset. If the page has another id, the data has been overwritten */
 } embedDBVarDataStream;
 
 typedef enum {
-- 
2.43.0


From 408ada8cc3a631656620285c1f4a3b986b6b5ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:38 +0000
Subject: [PATCH 20/45] fix: closing an aggregate operator lost its input, so
 that embedDBFreeOperatorRecursive leaked the rest of the chain

---
 lib/Distribution/embedDB.c            | 1 -
 src/query-interface/advancedQueries.c | 1 -
 2 files changed, 2 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 6c2b022..b875930 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -3830,7 +3830,6 @@ int8_t nextAggregate(embedDBOperator *op) {
 
 void closeAggregate(embedDBOperator *op) {
     op->input->close(op->input);
-    op->input = NULL;
     embedDBFreeSchema(&op->schema);
     free(((struct aggregateInfo *)op->state)->lastRecordBuffer);
     free(op->state);
diff --git a/src/query-interface/advancedQueries.c b/src/query-interface/advancedQueries.c
index 14a4e93..6a39437 100644
--- a/src/query-interface/advancedQueries.c
+++ b/src/query-interface/advancedQueries.c
@@ -602,7 +602,6 @@ int8_t nextAggregate(embedDBOperator* op) {
 
 void closeAggregate(embedDBOperator* op) {
     op->input->close(op->input);
-    op->input = NULL;
     embedDBFreeSchema(&op->schema);
     free(((struct aggregateInfo*)op->state)->lastRecordBuffer);
     free(op->state);
-- 
2.43.0


From 254910251fcf800917031524fe1f8a1df4f99b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:11 +0000
Subject: [PATCH 21/45] fix: min and max aggregates leaked the buffer of their
 current value

---
 lib/Distribution/embedDB.c            | 22 ++++++----------------
 src/query-interface/advancedQueries.c | 22 ++++++----------------
 2 files changed, 12 insertions(+), 32 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index b875930..f5610b9 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -4187,7 +4187,8 @@ embedDBAggregateFunc *createMinAggregate(uint8_t colNum, int8_t colSize) {
 #endif
         return NULL;
     }
-    struct minMaxState *state = malloc(sizeof(struct minMaxState));
+    // The current value is kept behind the state, as only the state is freed by the user
+    struct minMaxState *state = malloc(sizeof(struct minMaxState) + abs(colSize));
     if (state == NULL) {
 #ifdef PRINT_ERRORS
         printf("ERROR: Failed to allocate while creating min aggregate function\n");
@@ -4195,13 +4196,7 @@ embedDBAggregateFunc *createMinAggregate(uint8_t colNum, int8_t colSize) {
         return NULL;
     }
     state->colNum = colNum;
-    state->current = malloc(abs(colSize));
-    if (state->current == NULL) {
-#ifdef PRINT_ERRORS
-        printf("ERROR: Failed to allocate while creating min aggregate function\n");
-#endif
-        return NULL;
-    }
+    state->current = state + 1;
     aggFunc->state = state;
     aggFunc->colSize = colSize;
     aggFunc->reset = minReset;
@@ -4252,7 +4247,8 @@ embedDBAggregateFunc *createMaxAggregate(uint8_t colNum, int8_t colSize) {
 #endif
         return NULL;
     }
-    struct minMaxState *state = malloc(sizeof(struct minMaxState));
+    // The current value is kept behind the state, as only the state is freed by the user
+    struct minMaxState *state = malloc(sizeof(struct minMaxState) + abs(colSize));
     if (state == NULL) {
 #ifdef PRINT_ERRORS
         printf("ERROR: Failed to allocate while creating max aggregate function\n");
@@ -4260,13 +4256,7 @@ embedDBAggregateFunc *createMaxAggregate(uint8_t colNum, int8_t colSize) {
         return NULL;
     }
     state->colNum = colNum;
-    state->current = malloc(abs(colSize));
-    if (state->current == NULL) {
-#ifdef PRINT_ERRORS
-        printf("ERROR: Failed to allocate while creating max aggregate function\n");
-#endif
-        return NULL;
-    }
+    state->current = state + 1;
     aggFunc->state = state;
     aggFunc->colSize = colSize;
     aggFunc->reset = maxReset;
diff --git a/src/query-interface/advancedQueries.c b/src/query-interface/advancedQueries.c
index 6a39437..f511221 100644
--- a/src/query-interface/advancedQueries.c
+++ b/src/query-interface/advancedQueries.c
@@ -959,7 +959,8 @@ embedDBAggregateFunc* createMinAggregate(uint8_t colNum, int8_t colSize) {
 #endif
         return NULL;
     }
-    struct minMaxState* state = malloc(sizeof(struct minMaxState));
+    // The current value is kept behind the state, as only the state is freed by the user
+    struct minMaxState* state = malloc(sizeof(struct minMaxState) + abs(colSize));
     if (state == NULL) {
 #ifdef PRINT_ERRORS
         printf("ERROR: Failed to allocate while creating min aggregate function\n");
@@ -967,13 +968,7 @@ embedDBAggregateFunc* createMinAggregate(uint8_t colNum, int8_t colSize) {
         return NULL;
     }
     state->colNum = colNum;
-    state->current = malloc(abs(colSize));
-    if (state->current == NULL) {
-#ifdef PRINT_ERRORS
-        printf("ERROR: Failed to allocate while creating min aggregate function\n");
-#endif
-        return NULL;
-    }
+    state->current = state + 1;
     aggFunc->state = state;
     aggFunc->colSize = colSize;
     aggFunc->reset = minReset;
@@ -1024,7 +1019,8 @@ embedDBAggregateFunc* createMaxAggregate(uint8_t colNum, int8_t colSize) {
 #endif
         return NULL;
     }
-    struct minMaxState* state = malloc(sizeof(struct minMaxState));
+    // The current value is kept behind the state, as only the state is freed by the user
+    struct minMaxState* state = malloc(sizeof(struct minMaxState) + abs(colSize));
     if (state == NULL) {
 #ifdef PRINT_ERRORS
         printf("ERROR: Failed to allocate while creating max aggregate function\n");
@@ -1032,13 +1028,7 @@ embedDBAggregateFunc* createMaxAggregate(uint8_t colNum, int8_t colSize) {
         return NULL;
     }
     state->colNum = colNum;
-    state->current = malloc(abs(colSize));
-    if (state->current == NULL) {
-#ifdef PRINT_ERRORS
-        printf("ERROR: Failed to allocate while creating max aggregate function\n");
-#endif
-        return NULL;
-    }
+    state->current = state + 1;
     aggFunc->state = state;
     aggFunc->colSize = colSize;
     aggFunc->reset = maxReset;
-- 
2.43.0


From 96cb61fd0c6da25fbbfd8270e027ac87d7add4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:08 +0000
Subject: [PATCH 22/45] fix: the desktop file interface read and wrote at the
 wrong place when a seek failed

---
 lib/Desktop-File-Interface/desktopFileInterface.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/Desktop-File-Interface/desktopFileInterface.c b/lib/Desktop-File-Interface/desktopFileInterface.c
index 47c0812..de15937 100644
--- a/lib/Desktop-File-Interface/desktopFileInterface.c
+++ b/lib/Desktop-File-Interface/desktopFileInterface.c
@@ -24,13 +24,15 @@ void tearDownFile(void *file) {
 
 int8_t FILE_READ(void *buffer, uint32_t pageNum, uint32_t pageSize, void *file) {
     FILE_INFO *fileInfo = (FILE_INFO *)file;
-    fseek(fileInfo->file, pageSize * pageNum, SEEK_SET);
+    if (fseek(fileInfo->file, pageSize * pageNum, SEEK_SET) != 0)
+        return 0;
     return fread(buffer, pageSize, 1, fileInfo->file);
 }
 
 int8_t FILE_WRITE(void *buffer, uint32_t pageNum, uint32_t pageSize, void *file) {
     FILE_INFO *fileInfo = (FILE_INFO *)file;
-    fseek(fileInfo->file, pageNum * pageSize, SEEK_SET);
+    if (fseek(fileInfo->file, pageNum * pageSize, SEEK_SET) != 0)
+        return 0;
     return fwrite(buffer, pageSize, 1, fileInfo->file);
 }
 
@@ -47,7 +49,7 @@ int8_t MOCK_FILE_ERASE(uint32_t startPage, uint32_t endPage, uint32_t pageSize,
 #ifdef PRINT_ERRORS
         printf("Error seeking in file.\n");
 #endif
-        return seekResult;
+        return 0;
     }
 
     /* Setup data to insert */
-- 
2.43.0


From f2ce94f753ccac21fa74c43966712b014330a70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:17 +0000
Subject: [PATCH 23/45] fix: the desktop file interface reported a failed close
 as success

---
 lib/Desktop-File-Interface/desktopFileInterface.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Desktop-File-Interface/desktopFileInterface.c b/lib/Desktop-File-Interface/desktopFileInterface.c
index de15937..2938fa9 100644
--- a/lib/Desktop-File-Interface/desktopFileInterface.c
+++ b/lib/Desktop-File-Interface/desktopFileInterface.c
@@ -65,9 +65,9 @@ int8_t MOCK_FILE_ERASE(uint32_t startPage, uint32_t endPage, uint32_t pageSize,
 
 int8_t FILE_CLOSE(void *file) {
     FILE_INFO *fileInfo = (FILE_INFO *)file;
-    fclose(fileInfo->file);
+    int closeResult = fclose(fileInfo->file);
     fileInfo->file = NULL;
-    return 1;
+    return closeResult == 0;
 }
 
 int8_t FILE_FLUSH(void *file) {
-- 
2.43.0


From 7f9e566fd10ebf19a211b479b2ee7f8aaf6a8965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:39 +0000
Subject: [PATCH 24/45] fix: the desktop file interface mixed up pages 4 GiB
 apart

---
 .../desktopFileInterface.c                       | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/lib/Desktop-File-Interface/desktopFileInterface.c b/lib/Desktop-File-Interface/desktopFileInterface.c
index 2938fa9..9e1b32a 100644
--- a/lib/Desktop-File-Interface/desktopFileInterface.c
+++ b/lib/Desktop-File-Interface/desktopFileInterface.c
@@ -1,5 +1,7 @@
 #include "desktopFileInterface.h"
 
+#include <limits.h>
+
 typedef struct {
     char *filename;
     FILE *file;
@@ -22,16 +24,24 @@ void tearDownFile(void *file) {
     free(file);
 }
 
+/* Moves to the start of a page, whose offset can be beyond 32 bits. Returns 0 on success */
+static int seekToPage(FILE *file, uint32_t pageNum, uint32_t pageSize) {
+    uint64_t offset = (uint64_t)pageNum * pageSize;
+    if (offset > LONG_MAX)
+        return -1;
+    return fseek(file, (long)offset, SEEK_SET);
+}
+
 int8_t FILE_READ(void *buffer, uint32_t pageNum, uint32_t pageSize, void *file) {
     FILE_INFO *fileInfo = (FILE_INFO *)file;
-    if (fseek(fileInfo->file, pageSize * pageNum, SEEK_SET) != 0)
+    if (seekToPage(fileInfo->file, pageNum, pageSize) != 0)
         return 0;
     return fread(buffer, pageSize, 1, fileInfo->file);
 }
 
 int8_t FILE_WRITE(void *buffer, uint32_t pageNum, uint32_t pageSize, void *file) {
     FILE_INFO *fileInfo = (FILE_INFO *)file;
-    if (fseek(fileInfo->file, pageNum * pageSize, SEEK_SET) != 0)
+    if (seekToPage(fileInfo->file, pageNum, pageSize) != 0)
         return 0;
     return fwrite(buffer, pageSize, 1, fileInfo->file);
 }
@@ -43,7 +53,7 @@ int8_t FILE_ERASE(uint32_t startPage, uint32_t endPage, uint32_t pageSize, void
 int8_t MOCK_FILE_ERASE(uint32_t startPage, uint32_t endPage, uint32_t pageSize, void *file) {
     /* Seek to position in file */
     FILE_INFO *fileInfo = (FILE_INFO *)file;
-    int seekResult = fseek(fileInfo->file, startPage * pageSize, SEEK_SET);
+    int seekResult = seekToPage(fileInfo->file, startPage, pageSize);
 
     if (seekResult != 0) {
 #ifdef PRINT_ERRORS
-- 
2.43.0


From 2e71f6385f050b5767e3f51fe353c8e5d977b334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:35 +0000
Subject: [PATCH 25/45] fix: the SD file interface read the wrong page when a
 seek failed

---
 lib/SD-File-Interface/SDFileInterface.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/SD-File-Interface/SDFileInterface.c b/lib/SD-File-Interface/SDFileInterface.c
index 58da460..f72bcf2 100644
--- a/lib/SD-File-Interface/SDFileInterface.c
+++ b/lib/SD-File-Interface/SDFileInterface.c
@@ -59,7 +59,8 @@ void tearDownSDFile(void *file) {
 
 int8_t FILE_READ(void *buffer, uint32_t pageNum, uint32_t pageSize, void *file) {
     SD_FILE_INFO *fileInfo = (SD_FILE_INFO *)file;
-    sd_fseek(fileInfo->sdFile, pageSize * pageNum, SEEK_SET);
+    if (sd_fseek(fileInfo->sdFile, pageSize * pageNum, SEEK_SET) != 0)
+        return 0;
     return sd_fread(buffer, pageSize, 1, fileInfo->sdFile);
 }
 
-- 
2.43.0


From 392e0d91303f357f7e44d478ef73c889b7df6b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:44 +0000
Subject: [PATCH 26/45] fix: the SD file interface did not report failed writes
 as failures

---
 lib/SD-File-Interface/SDFileInterface.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/lib/SD-File-Interface/SDFileInterface.c b/lib/SD-File-Interface/SDFileInterface.c
index f72bcf2..d94f4a0 100644
--- a/lib/SD-File-Interface/SDFileInterface.c
+++ b/lib/SD-File-Interface/SDFileInterface.c
@@ -71,7 +71,7 @@ int8_t FILE_WRITE(void *buffer, uint32_t pageNum, uint32_t pageSize, void *file)
     if (fileSize < pageNum * pageSize) {
         int8_t seekSuccess = sd_fseek(fileInfo->sdFile, fileSize, SEEK_SET);
         if (seekSuccess == -1) {
-            return -1;
+            return 0;
         }
         size_t currentSize = fileSize;
         uint32_t max = UINT32_MAX;
@@ -79,18 +79,15 @@ int8_t FILE_WRITE(void *buffer, uint32_t pageNum, uint32_t pageSize, void *file)
         while (currentSize < requiredSize) {
             writeSuccess = sd_fwrite(&max, sizeof(uint32_t), 1, fileInfo->sdFile);
             if (writeSuccess == 0)
-                return -1;
+                return 0;
             currentSize += 4;
         }
     }
     int8_t seekSuccess = sd_fseek(fileInfo->sdFile, pageNum * pageSize, SEEK_SET);
     if (seekSuccess == -1) {
-        return -1;
-    }
-    int8_t writeSuccess = sd_fwrite(buffer, pageSize, 1, fileInfo->sdFile) == pageSize;
-    if (seekSuccess == -1)
         return 0;
-    return 1;
+    }
+    return sd_fwrite(buffer, pageSize, 1, fileInfo->sdFile) == pageSize;
 }
 
 int8_t FILE_ERASE(uint32_t startPage, uint32_t endPage, uint32_t pageSize, void *file) {
-- 
2.43.0


From 77c777d01654ac4b6c58ad5f11b95d8661619346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:52 +0000
Subject: [PATCH 27/45] fix: the SD file interface reported failed flushes and
 closes as success

---
 lib/SD-File-Interface/SDFileInterface.c |  4 ++--
 lib/SD-Wrapper/sdcard_c_iface.cpp       | 10 +++++-----
 lib/SD-Wrapper/sdcard_c_iface.h         |  4 ++--
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/lib/SD-File-Interface/SDFileInterface.c b/lib/SD-File-Interface/SDFileInterface.c
index d94f4a0..09c7fe5 100644
--- a/lib/SD-File-Interface/SDFileInterface.c
+++ b/lib/SD-File-Interface/SDFileInterface.c
@@ -96,9 +96,9 @@ int8_t FILE_ERASE(uint32_t startPage, uint32_t endPage, uint32_t pageSize, void
 
 int8_t FILE_CLOSE(void *file) {
     SD_FILE_INFO *fileInfo = (SD_FILE_INFO *)file;
-    sd_fclose(fileInfo->sdFile);
+    int closeResult = sd_fclose(fileInfo->sdFile);
     fileInfo->sdFile = NULL;
-    return 1;
+    return closeResult == 0;
 }
 
 int8_t FILE_FLUSH(void *file) {
diff --git a/lib/SD-Wrapper/sdcard_c_iface.cpp b/lib/SD-Wrapper/sdcard_c_iface.cpp
index 2f72f1e..37b46ab 100644
--- a/lib/SD-Wrapper/sdcard_c_iface.cpp
+++ b/lib/SD-Wrapper/sdcard_c_iface.cpp
@@ -62,17 +62,17 @@ void init_sdcard(void *sd) {
 }
 
 int sd_fclose(SD_FILE *stream) {
-    if (stream) {
-        stream->f.close();
+    int result = 0;
+    if (stream && !stream->f.close()) {
+        result = -1;
     }
 
     delete stream;
-    return 0;
+    return result;
 }
 
 int sd_fflush(SD_FILE *stream) {
-    stream->f.flush();
-    return 0;
+    return stream->f.sync() ? 0 : -1;
 }
 
 SD_FILE *sd_fopen(const char *filename, const char *mode) {
diff --git a/lib/SD-Wrapper/sdcard_c_iface.h b/lib/SD-Wrapper/sdcard_c_iface.h
index 2dc785e..a116e90 100644
--- a/lib/SD-Wrapper/sdcard_c_iface.h
+++ b/lib/SD-Wrapper/sdcard_c_iface.h
@@ -65,7 +65,7 @@ typedef struct _SD_File SD_FILE;
 @param		stream
                                 A pointer to the C file struct type associated with an SD
                                 file object.
-@returns	@c 0, always.
+@returns	@c 0 for success, a non-zero integer otherwise.
 */
 int sd_fclose(
     SD_FILE *stream);
@@ -75,7 +75,7 @@ int sd_fclose(
 @param		stream
                                 A pointer to the C file struct type associated with an SD
                                 file object representing the file to flush.
-@returns	@c 0, always.
+@returns	@c 0 for success, a non-zero integer otherwise.
 */
 int sd_fflush(
     SD_FILE *stream);
-- 
2.43.0


From c1dc06a9a587ac65c49a1b1e406008c227dd6d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:00 +0000
Subject: [PATCH 28/45] fix: opening an SD file for creation succeeded although
 its old contents could not be removed

---
 lib/SD-Wrapper/sdcard_c_iface.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/SD-Wrapper/sdcard_c_iface.cpp b/lib/SD-Wrapper/sdcard_c_iface.cpp
index 37b46ab..cc20edd 100644
--- a/lib/SD-Wrapper/sdcard_c_iface.cpp
+++ b/lib/SD-Wrapper/sdcard_c_iface.cpp
@@ -85,7 +85,10 @@ SD_FILE *sd_fopen(const char *filename, const char *mode) {
         }
         if (f.isOpen() == false)
             return NULL;
-        f.truncate(0);
+        if (!f.truncate(0)) {
+            f.close();
+            return NULL;
+        }
     } else if (mode[0] == 'r') {
         if (mode[1] == '+') {
             f = sdcard->open(filename, O_RDWR);
-- 
2.43.0


From eee92a5c0b16eed6e04ceaa7af52442ef2ab8141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:22 +0000
Subject: [PATCH 29/45] fix: the SD wrapper could not read 32768 bytes or more
 at once

---
 lib/SD-Wrapper/sdcard_c_iface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/SD-Wrapper/sdcard_c_iface.cpp b/lib/SD-Wrapper/sdcard_c_iface.cpp
index cc20edd..e9629aa 100644
--- a/lib/SD-Wrapper/sdcard_c_iface.cpp
+++ b/lib/SD-Wrapper/sdcard_c_iface.cpp
@@ -107,7 +107,7 @@ SD_FILE *sd_fopen(const char *filename, const char *mode) {
 
 size_t sd_fread(void *ptr, size_t size, size_t nmemb, SD_FILE *stream) {
     /* read is the size of bytes * num of size-bytes */
-    int16_t num_bytes = stream->f.read((char *)ptr, size * nmemb);
+    int num_bytes = stream->f.read((char *)ptr, size * nmemb);
 
     if (num_bytes < 0)
         return 0;
-- 
2.43.0


From 37a9b6d310f613cee31ddc93091043af46af482f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:44 +0000
Subject: [PATCH 30/45] fix: amalgamation: source name of a header whose name
 contains .h more than once

---
 amalgamation/amalgamation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amalgamation/amalgamation.py b/amalgamation/amalgamation.py
index ef41a23..9d79c27 100644
--- a/amalgamation/amalgamation.py
+++ b/amalgamation/amalgamation.py
@@ -668,7 +668,7 @@ def amalgamate(
         sorted_h, isCpp
     )
 
-    sorted_graph_c_files = [item.replace(".h", ".c") for item in sorted_graph]
+    sorted_graph_c_files = [os.path.splitext(item)[0] + ".c" for item in sorted_graph]
     sorted_c = order_file_nodes_by_sorted_filenames(
         source_file_nodes, sorted_graph_c_files
     )
-- 
2.43.0


From da5472e9198a78555aefa576d2f2c80e1be25314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:53 +0000
Subject: [PATCH 31/45] fix: amalgamation: order of the standard includes
 depended on the hash seed

---
 amalgamation/amalgamation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/amalgamation/amalgamation.py b/amalgamation/amalgamation.py
index 9d79c27..a94485f 100644
--- a/amalgamation/amalgamation.py
+++ b/amalgamation/amalgamation.py
@@ -664,7 +664,9 @@ def amalgamate(
     and the other having all the .h code so it's easy to include in other projects, and finally saving the files.
     """
     sorted_h = order_file_nodes_by_sorted_filenames(header_file_nodes, sorted_graph)
-    amalg_h = create_amalgamation(c_standard_dep, isCpp) + create_amalgamation(
+    amalg_h = create_amalgamation(
+        sorted(c_standard_dep), isCpp
+    ) + create_amalgamation(
         sorted_h, isCpp
     )
 
-- 
2.43.0


From 89b2d945c486ce2d6e45285125b4c17bbe91942f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:09 +0000
Subject: [PATCH 32/45] fix: selection on a column behind the 128th read
 outside of the schema

---
 lib/Distribution/embedDB.c            | 6 +++---
 lib/Distribution/embedDB.h            | 2 +-
 src/query-interface/advancedQueries.c | 6 +++---
 src/query-interface/advancedQueries.h | 2 +-
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index f5610b9..5230921 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -3587,7 +3587,7 @@ embedDBOperator *createProjectionOperator(embedDBOperator *input, uint8_t numCol
 }
 
 struct selectionInfo {
-    int8_t colNum;
+    uint8_t colNum;
     int8_t operation;
     void *compVal;
 };
@@ -3624,7 +3624,7 @@ int8_t nextSelection(embedDBOperator *op) {
     embedDBSchema *schema = op->input->schema;
     struct selectionInfo *state = op->state;
 
-    int8_t colNum = state->colNum;
+    uint8_t colNum = state->colNum;
     uint16_t colPos = getColOffsetFromSchema(schema, colNum);
     int8_t operation = state->operation;
     int8_t colSize = schema->columnSizes[colNum];
@@ -3662,7 +3662,7 @@ void closeSelection(embedDBOperator *op) {
  * @param	operation	A constant representing which comparison operation to perform. (e.g. SELECT_GT, SELECT_EQ, etc)
  * @param	compVal		A pointer to the value to compare with. Make sure the size of this is the same number of bytes as is described in the schema
  */
-embedDBOperator *createSelectionOperator(embedDBOperator *input, int8_t colNum, int8_t operation, void *compVal) {
+embedDBOperator *createSelectionOperator(embedDBOperator *input, uint8_t colNum, int8_t operation, void *compVal) {
     struct selectionInfo *state = malloc(sizeof(struct selectionInfo));
     if (state == NULL) {
 #ifdef PRINT_ERRORS
diff --git a/lib/Distribution/embedDB.h b/lib/Distribution/embedDB.h
index 0ee6a68..952aec6 100644
--- a/lib/Distribution/embedDB.h
+++ b/lib/Distribution/embedDB.h
@@ -911,7 +911,7 @@ embedDBOperator *createProjectionOperator(embedDBOperator *input, uint8_t numCol
  * @param	operation	A constant representing which comparison operation to perform. (e.g. SELECT_GT, SELECT_EQ, etc)
  * @param	compVal		A pointer to the value to compare with. Make sure the size of this is the same number of bytes as is described in the schema
  */
-embedDBOperator *createSelectionOperator(embedDBOperator *input, int8_t colNum, int8_t operation, void *compVal);
+embedDBOperator *createSelectionOperator(embedDBOperator *input, uint8_t colNum, int8_t operation, void *compVal);
 
 /**
  * @brief	Creates an operator that will find groups and preform aggregate functions over each group.
diff --git a/src/query-interface/advancedQueries.c b/src/query-interface/advancedQueries.c
index f511221..7ccef2b 100644
--- a/src/query-interface/advancedQueries.c
+++ b/src/query-interface/advancedQueries.c
@@ -359,7 +359,7 @@ embedDBOperator* createProjectionOperator(embedDBOperator* input, uint8_t numCol
 }
 
 struct selectionInfo {
-    int8_t colNum;
+    uint8_t colNum;
     int8_t operation;
     void* compVal;
 };
@@ -396,7 +396,7 @@ int8_t nextSelection(embedDBOperator* op) {
     embedDBSchema* schema = op->input->schema;
     struct selectionInfo* state = op->state;
 
-    int8_t colNum = state->colNum;
+    uint8_t colNum = state->colNum;
     uint16_t colPos = getColOffsetFromSchema(schema, colNum);
     int8_t operation = state->operation;
     int8_t colSize = schema->columnSizes[colNum];
@@ -434,7 +434,7 @@ void closeSelection(embedDBOperator* op) {
  * @param	operation	A constant representing which comparison operation to perform. (e.g. SELECT_GT, SELECT_EQ, etc)
  * @param	compVal		A pointer to the value to compare with. Make sure the size of this is the same number of bytes as is described in the schema
  */
-embedDBOperator* createSelectionOperator(embedDBOperator* input, int8_t colNum, int8_t operation, void* compVal) {
+embedDBOperator* createSelectionOperator(embedDBOperator* input, uint8_t colNum, int8_t operation, void* compVal) {
     struct selectionInfo* state = malloc(sizeof(struct selectionInfo));
     if (state == NULL) {
 #ifdef PRINT_ERRORS
diff --git a/src/query-interface/advancedQueries.h b/src/query-interface/advancedQueries.h
index e811bc2..c84f728 100644
--- a/src/query-interface/advancedQueries.h
+++ b/src/query-interface/advancedQueries.h
@@ -160,7 +160,7 @@ embedDBOperator* createProjectionOperator(embedDBOperator* input, uint8_t numCol
  * @param	operation	A constant representing which comparison operation to perform. (e.g. SELECT_GT, SELECT_EQ, etc)
  * @param	compVal		A pointer to the value to compare with. Make sure the size of this is the same number of bytes as is described in the schema
  */
-embedDBOperator* createSelectionOperator(embedDBOperator* input, int8_t colNum, int8_t operation, void* compVal);
+embedDBOperator* createSelectionOperator(embedDBOperator* input, uint8_t colNum, int8_t operation, void* compVal);
 
 /**
  * @brief	Creates an operator that will find groups and preform aggregate functions over each group.
-- 
2.43.0


From 49026c8b0e373020755d5a583b013be3865c3a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:46 +0000
Subject: [PATCH 33/45] fix: page header kept describing a record whose
 temporary page could not be written

---
 lib/Distribution/embedDB.c | 6 ++++--
 src/embedDB/embedDB.c      | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 5230921..b46017f 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1647,6 +1647,8 @@ int8_t putRecord(embedDBState *state, void *key, void *data, uint32_t varDataLoc
 
     /* Copy record onto page */
     count_t count = EMBEDDB_GET_COUNT(state->buffer);
+    int8_t previousHeader[state->headerSize];
+    memcpy(previousHeader, state->buffer, state->headerSize);
     memcpy((int8_t *)state->buffer + (state->recordSize * count) + state->headerSize, key, state->keySize);
     memcpy((int8_t *)state->buffer + (state->recordSize * count) + state->headerSize + state->keySize, data, state->dataSize);
 
@@ -1697,8 +1699,8 @@ int8_t putRecord(embedDBState *state, void *key, void *data, uint32_t varDataLoc
     if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) {
         int8_t writeResult = writeTemporaryPage(state, state->buffer);
         if (writeResult != 0) {
-            /* The record is not on storage, so take it back out of the write buffer */
-            memcpy((int8_t *)state->buffer + EMBEDDB_COUNT_OFFSET, &count, sizeof(count_t));
+            /* The record is not on storage, so take it back out of the write buffer, also out of the count, min/max and bitmap of the header */
+            memcpy(state->buffer, previousHeader, state->headerSize);
             return writeResult;
         }
     }
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index a3cbe77..1d2f74a 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1160,6 +1160,8 @@ int8_t putRecord(embedDBState *state, void *key, void *data, uint32_t varDataLoc
 
     /* Copy record onto page */
     count_t count = EMBEDDB_GET_COUNT(state->buffer);
+    int8_t previousHeader[state->headerSize];
+    memcpy(previousHeader, state->buffer, state->headerSize);
     memcpy((int8_t *)state->buffer + (state->recordSize * count) + state->headerSize, key, state->keySize);
     memcpy((int8_t *)state->buffer + (state->recordSize * count) + state->headerSize + state->keySize, data, state->dataSize);
 
@@ -1210,8 +1212,8 @@ int8_t putRecord(embedDBState *state, void *key, void *data, uint32_t varDataLoc
     if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) {
         int8_t writeResult = writeTemporaryPage(state, state->buffer);
         if (writeResult != 0) {
-            /* The record is not on storage, so take it back out of the write buffer */
-            memcpy((int8_t *)state->buffer + EMBEDDB_COUNT_OFFSET, &count, sizeof(count_t));
+            /* The record is not on storage, so take it back out of the write buffer, also out of the count, min/max and bitmap of the header */
+            memcpy(state->buffer, previousHeader, state->headerSize);
             return writeResult;
         }
     }
-- 
2.43.0


From ba22e17919a178e811502db6662e7842cde9c032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:59 +0000
Subject: [PATCH 34/45] fix: recovery took a failing second read of a page for
 an absent page

A data page that could not be read while the spline was rebuilt left a hole in
the spline, so its records were never found again, and with record-level
consistency the pages in the temporary blocks stayed part of the database.
---
 lib/Distribution/embedDB.c | 21 +++++++++++++++------
 src/embedDB/embedDB.c      | 21 +++++++++++++++------
 2 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index b46017f..02d53b7 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -552,7 +552,7 @@ int8_t checkKeyOrder(embedDBState *state, void *key);
 int8_t writeBufferedRecords(embedDBState *state);
 int8_t writeBufferedVarData(embedDBState *state);
 int8_t putRecord(embedDBState *state, void *key, void *data, uint32_t varDataLocation);
-void embedDBInitSplineFromFile(embedDBState *state);
+int8_t embedDBInitSplineFromFile(embedDBState *state);
 int32_t getMaxError(embedDBState *state, void *buffer);
 void updateMaxiumError(embedDBState *state, void *buffer);
 int8_t embedDBSetupVarDataStream(embedDBState *state, void *key, embedDBVarDataStream **varData, id_t recordNumber);
@@ -1011,7 +1011,7 @@ int8_t embedDBInitDataFromFile(embedDBState *state) {
     readPage(state, (state->nextDataPageId - 1) % state->numDataPages);
 
     if (!EMBEDDB_USING_BINARY_SEARCH(state->parameters)) {
-        embedDBInitSplineFromFile(state);
+        return embedDBInitSplineFromFile(state);
     }
 
     return 0;
@@ -1112,7 +1112,10 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
      */
     physicalPageId = (state->rlcPhysicalStartingPage + 2 * blockSize) % state->numDataPages;
     id_t expectedLogicalPageId = nextLogicalPageId + (physicalPageId + state->numDataPages - nextPhysicalPageId) % state->numDataPages - state->numDataPages;
-    if (readRecoveredDataPage(state, physicalPageId, &logicalPageId) && logicalPageId == expectedLogicalPageId) {
+    if (expectedLogicalPageId >= minLogicalPageId && expectedLogicalPageId <= maxLogicalPageId) {
+        /* The page was found above, but the ones before it were in the record-level consistency blocks */
+        minLogicalPageId = expectedLogicalPageId;
+    } else if (readRecoveredDataPage(state, physicalPageId, &logicalPageId) && logicalPageId == expectedLogicalPageId) {
         minLogicalPageId = logicalPageId;
     }
 
@@ -1123,22 +1126,28 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
     /* Put largest key back into the buffer */
     readPage(state, (state->nextDataPageId - 1) % state->numDataPages);
     if (!EMBEDDB_USING_BINARY_SEARCH(state->parameters)) {
-        embedDBInitSplineFromFile(state);
+        return embedDBInitSplineFromFile(state);
     }
 
     return 0;
 }
 
-void embedDBInitSplineFromFile(embedDBState *state) {
+int8_t embedDBInitSplineFromFile(embedDBState *state) {
     id_t pageNumberToRead = state->minDataPageId;
     void *buffer = (int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_READ_BUFFER;
     id_t pagesRead = 0;
     id_t numberOfPagesToRead = state->nextDataPageId - state->minDataPageId;
     while (pagesRead < numberOfPagesToRead) {
-        readPage(state, pageNumberToRead % state->numDataPages);
+        if (readPage(state, pageNumberToRead % state->numDataPages) != 0) {
+#ifdef PRINT_ERRORS
+            printf("Error: Can't read page in data file that was previously read!\n");
+#endif
+            return -1;
+        }
         splineAdd(state->spl, embedDBGetMinKey(state, buffer), pageNumberToRead++);
         pagesRead++;
     }
+    return 0;
 }
 
 int8_t embedDBInitIndex(embedDBState *state) {
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 1d2f74a..da2a843 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -66,7 +66,7 @@ int8_t checkKeyOrder(embedDBState *state, void *key);
 int8_t writeBufferedRecords(embedDBState *state);
 int8_t writeBufferedVarData(embedDBState *state);
 int8_t putRecord(embedDBState *state, void *key, void *data, uint32_t varDataLocation);
-void embedDBInitSplineFromFile(embedDBState *state);
+int8_t embedDBInitSplineFromFile(embedDBState *state);
 int32_t getMaxError(embedDBState *state, void *buffer);
 void updateMaxiumError(embedDBState *state, void *buffer);
 int8_t embedDBSetupVarDataStream(embedDBState *state, void *key, embedDBVarDataStream **varData, id_t recordNumber);
@@ -525,7 +525,7 @@ int8_t embedDBInitDataFromFile(embedDBState *state) {
     readPage(state, (state->nextDataPageId - 1) % state->numDataPages);
 
     if (!EMBEDDB_USING_BINARY_SEARCH(state->parameters)) {
-        embedDBInitSplineFromFile(state);
+        return embedDBInitSplineFromFile(state);
     }
 
     return 0;
@@ -626,7 +626,10 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
      */
     physicalPageId = (state->rlcPhysicalStartingPage + 2 * blockSize) % state->numDataPages;
     id_t expectedLogicalPageId = nextLogicalPageId + (physicalPageId + state->numDataPages - nextPhysicalPageId) % state->numDataPages - state->numDataPages;
-    if (readRecoveredDataPage(state, physicalPageId, &logicalPageId) && logicalPageId == expectedLogicalPageId) {
+    if (expectedLogicalPageId >= minLogicalPageId && expectedLogicalPageId <= maxLogicalPageId) {
+        /* The page was found above, but the ones before it were in the record-level consistency blocks */
+        minLogicalPageId = expectedLogicalPageId;
+    } else if (readRecoveredDataPage(state, physicalPageId, &logicalPageId) && logicalPageId == expectedLogicalPageId) {
         minLogicalPageId = logicalPageId;
     }
 
@@ -637,22 +640,28 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
     /* Put largest key back into the buffer */
     readPage(state, (state->nextDataPageId - 1) % state->numDataPages);
     if (!EMBEDDB_USING_BINARY_SEARCH(state->parameters)) {
-        embedDBInitSplineFromFile(state);
+        return embedDBInitSplineFromFile(state);
     }
 
     return 0;
 }
 
-void embedDBInitSplineFromFile(embedDBState *state) {
+int8_t embedDBInitSplineFromFile(embedDBState *state) {
     id_t pageNumberToRead = state->minDataPageId;
     void *buffer = (int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_READ_BUFFER;
     id_t pagesRead = 0;
     id_t numberOfPagesToRead = state->nextDataPageId - state->minDataPageId;
     while (pagesRead < numberOfPagesToRead) {
-        readPage(state, pageNumberToRead % state->numDataPages);
+        if (readPage(state, pageNumberToRead % state->numDataPages) != 0) {
+#ifdef PRINT_ERRORS
+            printf("Error: Can't read page in data file that was previously read!\n");
+#endif
+            return -1;
+        }
         splineAdd(state->spl, embedDBGetMinKey(state, buffer), pageNumberToRead++);
         pagesRead++;
     }
+    return 0;
 }
 
 int8_t embedDBInitIndex(embedDBState *state) {
-- 
2.43.0


From ffd73b9eade20ff390ee3383cb1062305935c86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:49 +0000
Subject: [PATCH 35/45] fix: recovery finishes the erase of a block whose first
 page was erased already

If the power failed while a block was being erased, the remaining pages of the
first data and variable data block and of every index block were written again
without having been erased.
---
 lib/Distribution/embedDB.c | 48 +++++++++++++++++++++++++++-----------
 src/embedDB/embedDB.c      | 48 +++++++++++++++++++++++++++-----------
 2 files changed, 68 insertions(+), 28 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 02d53b7..a4e71f4 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -996,11 +996,12 @@ int8_t embedDBInitDataFromFile(embedDBState *state) {
         if (readRecoveredDataPage(state, nextBlock, &logicalPageId) && logicalPageId == expectedLogicalPageId) {
             minLogicalPageId = logicalPageId;
         }
+    }
 
-        /* If the last page of a block was written, we can not tell if the next block has already been erased, so make sure it is */
-        if (minLogicalPageId > 0 && physicalPageId % blockSize == 0 && eraseDataBlock(state, physicalPageId) != 0) {
-            return -1;
-        }
+    /* If the last page of a block was written, we can not tell if all of the next block has already been erased, so make sure it is */
+    bool isNextBlockErased = physicalPageId < state->numDataPages ? minLogicalPageId > 0 : firstPhysicalPageId > 0;
+    if (isNextBlockErased && physicalPageId % blockSize == 0 && eraseDataBlock(state, physicalPageId % state->numDataPages) != 0) {
+        return -1;
     }
 
     state->nextDataPageId = maxLogicalPageId + 1;
@@ -1230,13 +1231,30 @@ int8_t embedDBInitIndexFromFile(embedDBState *state) {
     }
 
     /* If we have wrapped, the oldest index page is the next one. If it has been erased, so has the rest of its block and the oldest one is the first page of the next block */
+    bool isNextBlockErased = physicalIndexPageId == state->numIndexPages && firstPhysicalPageId > 0;
     if (physicalIndexPageId < state->numIndexPages) {
         id_t nextBlock = physicalIndexPageId - physicalIndexPageId % blockSize + blockSize;
         id_t expectedLogicalPageId = maxLogicalIndexPageId + 1 - state->numIndexPages;
         if (readRecoveredIndexPage(state, physicalIndexPageId, &logicalIndexPageId) && logicalIndexPageId == expectedLogicalPageId) {
             minLogicalIndexPageId = logicalIndexPageId;
-        } else if (readRecoveredIndexPage(state, nextBlock, &logicalIndexPageId) && logicalIndexPageId == expectedLogicalPageId + (nextBlock - physicalIndexPageId)) {
-            minLogicalIndexPageId = logicalIndexPageId;
+        } else {
+            if (readRecoveredIndexPage(state, nextBlock, &logicalIndexPageId) && logicalIndexPageId == expectedLogicalPageId + (nextBlock - physicalIndexPageId)) {
+                minLogicalIndexPageId = logicalIndexPageId;
+            }
+            isNextBlockErased = minLogicalIndexPageId > 0;
+        }
+    }
+
+    /* If the last page of a block was written, we can not tell if all of the next block has already been erased, so make sure it is */
+    if (isNextBlockErased && physicalIndexPageId % blockSize == 0) {
+        physicalIndexPageId %= state->numIndexPages;
+        invalidateBufferedPages(&state->bufferedIndexPageId, physicalIndexPageId, physicalIndexPageId + blockSize);
+        int8_t eraseResult = state->fileInterface->erase(physicalIndexPageId, physicalIndexPageId + blockSize, state->pageSize, state->indexFile);
+        if (eraseResult != 1) {
+#ifdef PRINT_ERRORS
+            printf("Error: Unable to erase the block starting at physical page %u in the index file!\n", physicalIndexPageId);
+#endif
+            return -1;
         }
     }
 
@@ -1340,17 +1358,19 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
             physicalPageIDOfSmallestData = nextBlock;
             minVarPageId = logicalVariablePageId;
         }
+    }
 
-        /* If the last page of a block was written, we can not tell if the next block has already been erased, so make sure it is */
-        if (minVarPageId > 0 && physicalVariablePageId % blockSize == 0) {
-            invalidateBufferedPages(&state->bufferedVarPage, physicalVariablePageId, physicalVariablePageId + blockSize);
-            int8_t eraseResult = state->fileInterface->erase(physicalVariablePageId, physicalVariablePageId + blockSize, state->pageSize, state->varFile);
-            if (eraseResult != 1) {
+    /* If the last page of a block was written, we can not tell if all of the next block has already been erased, so make sure it is */
+    bool isNextBlockErased = physicalVariablePageId < state->numVarPages ? minVarPageId > 0 : firstPhysicalPageId > 0;
+    if (isNextBlockErased && physicalVariablePageId % blockSize == 0) {
+        physicalVariablePageId %= state->numVarPages;
+        invalidateBufferedPages(&state->bufferedVarPage, physicalVariablePageId, physicalVariablePageId + blockSize);
+        int8_t eraseResult = state->fileInterface->erase(physicalVariablePageId, physicalVariablePageId + blockSize, state->pageSize, state->varFile);
+        if (eraseResult != 1) {
 #ifdef PRINT_ERRORS
-                printf("Error: Unable to erase the block starting at physical page %u in the variable data file!\n", physicalVariablePageId);
+            printf("Error: Unable to erase the block starting at physical page %u in the variable data file!\n", physicalVariablePageId);
 #endif
-                return -1;
-            }
+            return -1;
         }
     }
 
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index da2a843..a75314b 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -510,11 +510,12 @@ int8_t embedDBInitDataFromFile(embedDBState *state) {
         if (readRecoveredDataPage(state, nextBlock, &logicalPageId) && logicalPageId == expectedLogicalPageId) {
             minLogicalPageId = logicalPageId;
         }
+    }
 
-        /* If the last page of a block was written, we can not tell if the next block has already been erased, so make sure it is */
-        if (minLogicalPageId > 0 && physicalPageId % blockSize == 0 && eraseDataBlock(state, physicalPageId) != 0) {
-            return -1;
-        }
+    /* If the last page of a block was written, we can not tell if all of the next block has already been erased, so make sure it is */
+    bool isNextBlockErased = physicalPageId < state->numDataPages ? minLogicalPageId > 0 : firstPhysicalPageId > 0;
+    if (isNextBlockErased && physicalPageId % blockSize == 0 && eraseDataBlock(state, physicalPageId % state->numDataPages) != 0) {
+        return -1;
     }
 
     state->nextDataPageId = maxLogicalPageId + 1;
@@ -744,13 +745,30 @@ int8_t embedDBInitIndexFromFile(embedDBState *state) {
     }
 
     /* If we have wrapped, the oldest index page is the next one. If it has been erased, so has the rest of its block and the oldest one is the first page of the next block */
+    bool isNextBlockErased = physicalIndexPageId == state->numIndexPages && firstPhysicalPageId > 0;
     if (physicalIndexPageId < state->numIndexPages) {
         id_t nextBlock = physicalIndexPageId - physicalIndexPageId % blockSize + blockSize;
         id_t expectedLogicalPageId = maxLogicalIndexPageId + 1 - state->numIndexPages;
         if (readRecoveredIndexPage(state, physicalIndexPageId, &logicalIndexPageId) && logicalIndexPageId == expectedLogicalPageId) {
             minLogicalIndexPageId = logicalIndexPageId;
-        } else if (readRecoveredIndexPage(state, nextBlock, &logicalIndexPageId) && logicalIndexPageId == expectedLogicalPageId + (nextBlock - physicalIndexPageId)) {
-            minLogicalIndexPageId = logicalIndexPageId;
+        } else {
+            if (readRecoveredIndexPage(state, nextBlock, &logicalIndexPageId) && logicalIndexPageId == expectedLogicalPageId + (nextBlock - physicalIndexPageId)) {
+                minLogicalIndexPageId = logicalIndexPageId;
+            }
+            isNextBlockErased = minLogicalIndexPageId > 0;
+        }
+    }
+
+    /* If the last page of a block was written, we can not tell if all of the next block has already been erased, so make sure it is */
+    if (isNextBlockErased && physicalIndexPageId % blockSize == 0) {
+        physicalIndexPageId %= state->numIndexPages;
+        invalidateBufferedPages(&state->bufferedIndexPageId, physicalIndexPageId, physicalIndexPageId + blockSize);
+        int8_t eraseResult = state->fileInterface->erase(physicalIndexPageId, physicalIndexPageId + blockSize, state->pageSize, state->indexFile);
+        if (eraseResult != 1) {
+#ifdef PRINT_ERRORS
+            printf("Error: Unable to erase the block starting at physical page %u in the index file!\n", physicalIndexPageId);
+#endif
+            return -1;
         }
     }
 
@@ -854,17 +872,19 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
             physicalPageIDOfSmallestData = nextBlock;
             minVarPageId = logicalVariablePageId;
         }
+    }
 
-        /* If the last page of a block was written, we can not tell if the next block has already been erased, so make sure it is */
-        if (minVarPageId > 0 && physicalVariablePageId % blockSize == 0) {
-            invalidateBufferedPages(&state->bufferedVarPage, physicalVariablePageId, physicalVariablePageId + blockSize);
-            int8_t eraseResult = state->fileInterface->erase(physicalVariablePageId, physicalVariablePageId + blockSize, state->pageSize, state->varFile);
-            if (eraseResult != 1) {
+    /* If the last page of a block was written, we can not tell if all of the next block has already been erased, so make sure it is */
+    bool isNextBlockErased = physicalVariablePageId < state->numVarPages ? minVarPageId > 0 : firstPhysicalPageId > 0;
+    if (isNextBlockErased && physicalVariablePageId % blockSize == 0) {
+        physicalVariablePageId %= state->numVarPages;
+        invalidateBufferedPages(&state->bufferedVarPage, physicalVariablePageId, physicalVariablePageId + blockSize);
+        int8_t eraseResult = state->fileInterface->erase(physicalVariablePageId, physicalVariablePageId + blockSize, state->pageSize, state->varFile);
+        if (eraseResult != 1) {
 #ifdef PRINT_ERRORS
-                printf("Error: Unable to erase the block starting at physical page %u in the variable data file!\n", physicalVariablePageId);
+            printf("Error: Unable to erase the block starting at physical page %u in the variable data file!\n", physicalVariablePageId);
 #endif
-                return -1;
-            }
+            return -1;
         }
     }
 
-- 
2.43.0


From 8315ed2a6d24979dde47391afe509f6bdda5ee21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:54 +0000
Subject: [PATCH 36/45] fix: initialisation reports it when there is no memory
 for the learned index

---
 lib/Distribution/embedDB.c | 18 ++++++++++++++++--
 lib/Distribution/embedDB.h |  3 ++-
 src/embedDB/embedDB.c      |  9 ++++++++-
 src/spline/spline.c        |  9 ++++++++-
 src/spline/spline.h        |  3 ++-
 5 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index a4e71f4..571a711 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -79,8 +79,9 @@
  * @param    size       Maximum size of spline
  * @param    maxError   Maximum error allowed in spline
  * @param    keySize    Size of key in bytes
+ * @return   Returns zero if successful and one if there is not enough memory
  */
-void splineInit(spline *spl, id_t size, size_t maxError, uint8_t keySize) {
+int8_t splineInit(spline *spl, id_t size, size_t maxError, uint8_t keySize) {
     uint8_t pointSize = sizeof(uint32_t) + keySize;
     spl->count = 0;
     spl->pointsStartIndex = 0;
@@ -95,6 +96,12 @@ void splineInit(spline *spl, id_t size, size_t maxError, uint8_t keySize) {
     spl->upper = malloc(pointSize);
     spl->firstSplinePoint = malloc(pointSize);
     spl->numAddCalls = 0;
+
+    if (spl->points == NULL || spl->lastKey == NULL || spl->lower == NULL || spl->upper == NULL || spl->firstSplinePoint == NULL) {
+        splineClose(spl);
+        return 1;
+    }
+    return 0;
 }
 
 /**
@@ -840,7 +847,14 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
     /* Initalize the spline structure if being used */
     if (!EMBEDDB_USING_BINARY_SEARCH(state->parameters)) {
         state->spl = malloc(sizeof(spline));
-        splineInit(state->spl, state->numSplinePoints, indexMaxError, state->keySize);
+        if (state->spl == NULL || splineInit(state->spl, state->numSplinePoints, indexMaxError, state->keySize) != 0) {
+#ifdef PRINT_ERRORS
+            printf("ERROR: Failed to allocate the learned index!\n");
+#endif
+            free(state->spl);
+            state->spl = NULL;
+            return -1;
+        }
     } else {
         state->spl = NULL;
     }
diff --git a/lib/Distribution/embedDB.h b/lib/Distribution/embedDB.h
index 952aec6..706a3c2 100644
--- a/lib/Distribution/embedDB.h
+++ b/lib/Distribution/embedDB.h
@@ -112,8 +112,9 @@ struct spline_s {
  * @param    size       Maximum size of spline
  * @param    maxError   Maximum error allowed in spline
  * @param    keySize    Size of key in bytes
+ * @return   Returns zero if successful and one if there is not enough memory
  */
-void splineInit(spline *spl, id_t size, size_t maxError, uint8_t keySize);
+int8_t splineInit(spline *spl, id_t size, size_t maxError, uint8_t keySize);
 
 /**
  * @brief	Builds a spline structure given a sorted data set. GreedySplineCorridor
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index a75314b..861c1d8 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -354,7 +354,14 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
     /* Initalize the spline structure if being used */
     if (!EMBEDDB_USING_BINARY_SEARCH(state->parameters)) {
         state->spl = malloc(sizeof(spline));
-        splineInit(state->spl, state->numSplinePoints, indexMaxError, state->keySize);
+        if (state->spl == NULL || splineInit(state->spl, state->numSplinePoints, indexMaxError, state->keySize) != 0) {
+#ifdef PRINT_ERRORS
+            printf("ERROR: Failed to allocate the learned index!\n");
+#endif
+            free(state->spl);
+            state->spl = NULL;
+            return -1;
+        }
     } else {
         state->spl = NULL;
     }
diff --git a/src/spline/spline.c b/src/spline/spline.c
index d4873cb..c97d5a3 100644
--- a/src/spline/spline.c
+++ b/src/spline/spline.c
@@ -50,8 +50,9 @@
  * @param    size       Maximum size of spline
  * @param    maxError   Maximum error allowed in spline
  * @param    keySize    Size of key in bytes
+ * @return   Returns zero if successful and one if there is not enough memory
  */
-void splineInit(spline *spl, id_t size, size_t maxError, uint8_t keySize) {
+int8_t splineInit(spline *spl, id_t size, size_t maxError, uint8_t keySize) {
     uint8_t pointSize = sizeof(uint32_t) + keySize;
     spl->count = 0;
     spl->pointsStartIndex = 0;
@@ -66,6 +67,12 @@ void splineInit(spline *spl, id_t size, size_t maxError, uint8_t keySize) {
     spl->upper = malloc(pointSize);
     spl->firstSplinePoint = malloc(pointSize);
     spl->numAddCalls = 0;
+
+    if (spl->points == NULL || spl->lastKey == NULL || spl->lower == NULL || spl->upper == NULL || spl->firstSplinePoint == NULL) {
+        splineClose(spl);
+        return 1;
+    }
+    return 0;
 }
 
 /**
diff --git a/src/spline/spline.h b/src/spline/spline.h
index 0d3f000..0c7b346 100644
--- a/src/spline/spline.h
+++ b/src/spline/spline.h
@@ -70,8 +70,9 @@ struct spline_s {
  * @param    size       Maximum size of spline
  * @param    maxError   Maximum error allowed in spline
  * @param    keySize    Size of key in bytes
+ * @return   Returns zero if successful and one if there is not enough memory
  */
-void splineInit(spline *spl, id_t size, size_t maxError, uint8_t keySize);
+int8_t splineInit(spline *spl, id_t size, size_t maxError, uint8_t keySize);
 
 /**
  * @brief	Builds a spline structure given a sorted data set. GreedySplineCorridor
-- 
2.43.0


From 12ee79397faa2c86e4fc9eab3e2fccc9ad684a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:02 +0000
Subject: [PATCH 37/45] fix: an iterator without memory for its bitmap filter
 reads every page instead of crashing

---
 lib/Distribution/embedDB.c | 5 ++++-
 src/embedDB/embedDB.c      | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 571a711..f8933a1 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -2258,7 +2258,10 @@ void embedDBInitIterator(embedDBState *state, embedDBIterator *it) {
         /* Verify that bitmap index is useful (must have set either min or max data value) */
         if (it->minData != NULL || it->maxData != NULL) {
             it->queryBitmap = calloc(1, state->bitmapSize);
-            state->buildBitmapFromRange(it->minData, it->maxData, it->queryBitmap);
+            /* Without the memory for it, every data page is read */
+            if (it->queryBitmap != NULL) {
+                state->buildBitmapFromRange(it->minData, it->maxData, it->queryBitmap);
+            }
         }
     }
 
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 861c1d8..2816606 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1764,7 +1764,10 @@ void embedDBInitIterator(embedDBState *state, embedDBIterator *it) {
         /* Verify that bitmap index is useful (must have set either min or max data value) */
         if (it->minData != NULL || it->maxData != NULL) {
             it->queryBitmap = calloc(1, state->bitmapSize);
-            state->buildBitmapFromRange(it->minData, it->maxData, it->queryBitmap);
+            /* Without the memory for it, every data page is read */
+            if (it->queryBitmap != NULL) {
+                state->buildBitmapFromRange(it->minData, it->maxData, it->queryBitmap);
+            }
         }
     }
 
-- 
2.43.0


From 4c4e8b7df4a6163d7ce3848ee6a69af4a606e516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:26 +0000
Subject: [PATCH 38/45] fix: creating or copying a schema checks its
 allocations and frees them when it fails

---
 lib/Distribution/embedDB.c   | 16 ++++++++++++++++
 src/query-interface/schema.c | 16 ++++++++++++++++
 2 files changed, 32 insertions(+)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index f8933a1..a309f86 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -3173,7 +3173,20 @@ void embedDBClose(embedDBState *state) {
  */
 embedDBSchema *embedDBCreateSchema(uint8_t numCols, int8_t *colSizes, int8_t *colSignedness) {
     embedDBSchema *schema = malloc(sizeof(embedDBSchema));
+    if (schema == NULL) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: malloc failed while creating schema\n");
+#endif
+        return NULL;
+    }
     schema->columnSizes = malloc(numCols * sizeof(int8_t));
+    if (schema->columnSizes == NULL) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: malloc failed while creating schema\n");
+#endif
+        free(schema);
+        return NULL;
+    }
     schema->numCols = numCols;
     uint16_t totalSize = 0;
     for (uint8_t i = 0; i < numCols; i++) {
@@ -3184,6 +3197,7 @@ embedDBSchema *embedDBCreateSchema(uint8_t numCols, int8_t *colSizes, int8_t *co
 #ifdef PRINT_ERRORS
             printf("ERROR: Column size must be greater than zero\n");
 #endif
+            embedDBFreeSchema(&schema);
             return NULL;
         }
         if (sign == embedDB_COLUMN_SIGNED) {
@@ -3194,6 +3208,7 @@ embedDBSchema *embedDBCreateSchema(uint8_t numCols, int8_t *colSizes, int8_t *co
 #ifdef PRINT_ERRORS
             printf("ERROR: Must only use embedDB_COLUMN_SIGNED or embedDB_COLUMN_UNSIGNED to describe column signedness\n");
 #endif
+            embedDBFreeSchema(&schema);
             return NULL;
         }
     }
@@ -3239,6 +3254,7 @@ embedDBSchema *copySchema(const embedDBSchema *schema) {
 #ifdef PRINT_ERRORS
         printf("ERROR: malloc failed while copying schema\n");
 #endif
+        free(copy);
         return NULL;
     }
     memcpy(copy->columnSizes, schema->columnSizes, schema->numCols * sizeof(int8_t));
diff --git a/src/query-interface/schema.c b/src/query-interface/schema.c
index 5790949..f0f4ea6 100644
--- a/src/query-interface/schema.c
+++ b/src/query-interface/schema.c
@@ -52,7 +52,20 @@
  */
 embedDBSchema* embedDBCreateSchema(uint8_t numCols, int8_t* colSizes, int8_t* colSignedness) {
     embedDBSchema* schema = malloc(sizeof(embedDBSchema));
+    if (schema == NULL) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: malloc failed while creating schema\n");
+#endif
+        return NULL;
+    }
     schema->columnSizes = malloc(numCols * sizeof(int8_t));
+    if (schema->columnSizes == NULL) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: malloc failed while creating schema\n");
+#endif
+        free(schema);
+        return NULL;
+    }
     schema->numCols = numCols;
     uint16_t totalSize = 0;
     for (uint8_t i = 0; i < numCols; i++) {
@@ -63,6 +76,7 @@ embedDBSchema* embedDBCreateSchema(uint8_t numCols, int8_t* colSizes, int8_t* co
 #ifdef PRINT_ERRORS
             printf("ERROR: Column size must be greater than zero\n");
 #endif
+            embedDBFreeSchema(&schema);
             return NULL;
         }
         if (sign == embedDB_COLUMN_SIGNED) {
@@ -73,6 +87,7 @@ embedDBSchema* embedDBCreateSchema(uint8_t numCols, int8_t* colSizes, int8_t* co
 #ifdef PRINT_ERRORS
             printf("ERROR: Must only use embedDB_COLUMN_SIGNED or embedDB_COLUMN_UNSIGNED to describe column signedness\n");
 #endif
+            embedDBFreeSchema(&schema);
             return NULL;
         }
     }
@@ -118,6 +133,7 @@ embedDBSchema* copySchema(const embedDBSchema* schema) {
 #ifdef PRINT_ERRORS
         printf("ERROR: malloc failed while copying schema\n");
 #endif
+        free(copy);
         return NULL;
     }
     memcpy(copy->columnSizes, schema->columnSizes, schema->numCols * sizeof(int8_t));
-- 
2.43.0


From 5410c9040fd049f1f691af01fc5966d4b69e8d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:34 +0000
Subject: [PATCH 39/45] fix: negative column sizes are refused like zero

---
 lib/Distribution/embedDB.c   | 2 +-
 src/query-interface/schema.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index a309f86..09c437e 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -3191,7 +3191,7 @@ embedDBSchema *embedDBCreateSchema(uint8_t numCols, int8_t *colSizes, int8_t *co
     uint16_t totalSize = 0;
     for (uint8_t i = 0; i < numCols; i++) {
         int8_t sign = colSignedness[i];
-        uint8_t colSize = colSizes[i];
+        int8_t colSize = colSizes[i];
         totalSize += colSize;
         if (colSize <= 0) {
 #ifdef PRINT_ERRORS
diff --git a/src/query-interface/schema.c b/src/query-interface/schema.c
index f0f4ea6..783b3b3 100644
--- a/src/query-interface/schema.c
+++ b/src/query-interface/schema.c
@@ -70,7 +70,7 @@ embedDBSchema* embedDBCreateSchema(uint8_t numCols, int8_t* colSizes, int8_t* co
     uint16_t totalSize = 0;
     for (uint8_t i = 0; i < numCols; i++) {
         int8_t sign = colSignedness[i];
-        uint8_t colSize = colSizes[i];
+        int8_t colSize = colSizes[i];
         totalSize += colSize;
         if (colSize <= 0) {
 #ifdef PRINT_ERRORS
-- 
2.43.0


From bf16db676818e7d5b63bf909a793979cdb4050b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:54 +0000
Subject: [PATCH 40/45] fix: creating an operator or aggregate without enough
 memory fails without a leak

---
 lib/Distribution/embedDB.c            | 42 +++++++++++++++++++++++++++
 src/query-interface/advancedQueries.c | 42 +++++++++++++++++++++++++++
 2 files changed, 84 insertions(+)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 09c437e..bc2ee15 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -3516,12 +3516,18 @@ embedDBOperator *createTableScanOperator(embedDBState *state, embedDBIterator *i
 #ifdef PRINT_ERRORS
         printf("ERROR: malloc failed while creating TableScan operator\n");
 #endif
+        free(op);
         return NULL;
     }
     memcpy(op->state, &state, sizeof(void *));
     memcpy((int8_t *)op->state + sizeof(void *), &it, sizeof(void *));
 
     op->schema = copySchema(baseSchema);
+    if (op->schema == NULL) {
+        free(op->state);
+        free(op);
+        return NULL;
+    }
     op->input = NULL;
     op->recordBuffer = NULL;
 
@@ -3563,6 +3569,7 @@ void initProjection(embedDBOperator *op) {
 #ifdef PRINT_ERRORS
             printf("ERROR: Failed to allocate space for projection while building schema\n");
 #endif
+            embedDBFreeSchema(&op->schema);
             return;
         }
         for (uint8_t i = 0; i < numCols; i++) {
@@ -3636,6 +3643,7 @@ embedDBOperator *createProjectionOperator(embedDBOperator *input, uint8_t numCol
 #ifdef PRINT_ERRORS
         printf("ERROR: malloc failed while creating Projection operator\n");
 #endif
+        free(state);
         return NULL;
     }
 
@@ -3743,6 +3751,7 @@ embedDBOperator *createSelectionOperator(embedDBOperator *input, uint8_t colNum,
 #ifdef PRINT_ERRORS
         printf("ERROR: Failed to malloc while creating Selection operator\n");
 #endif
+        free(state);
         return NULL;
     }
     op->state = state;
@@ -3797,6 +3806,7 @@ void initAggregate(embedDBOperator *op) {
 #ifdef PRINT_ERRORS
             printf("ERROR: Failed to malloc while initializing aggregate operator\n");
 #endif
+            embedDBFreeSchema(&op->schema);
             return;
         }
         for (uint8_t i = 0; i < state->functionsLength; i++) {
@@ -3928,6 +3938,7 @@ embedDBOperator *createAggregateOperator(embedDBOperator *input, int8_t (*groupf
 #ifdef PRINT_ERRORS
         printf("ERROR: Failed to malloc while creating aggregate operator\n");
 #endif
+        free(state);
         return NULL;
     }
 
@@ -3987,6 +3998,7 @@ void initKeyJoin(embedDBOperator *op) {
 #ifdef PRINT_ERRORS
             printf("ERROR: Failed to malloc while initializing join operator\n");
 #endif
+            embedDBFreeSchema(&op->schema);
             return;
         }
         memcpy(op->schema->columnSizes, schema1->columnSizes, schema1->numCols);
@@ -4107,6 +4119,7 @@ embedDBOperator *createKeyJoinOperator(embedDBOperator *input1, embedDBOperator
 #ifdef PRINT_ERRORS
         printf("ERROR: Failed to malloc while creating join operator\n");
 #endif
+        free(op);
         return NULL;
     }
     state->input2 = input2;
@@ -4140,10 +4153,23 @@ void countCompute(embedDBAggregateFunc *aggFunc, embedDBSchema *outputSchema, vo
  */
 embedDBAggregateFunc *createCountAggregate() {
     embedDBAggregateFunc *aggFunc = malloc(sizeof(embedDBAggregateFunc));
+    if (aggFunc == NULL) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: Failed to allocate while creating count aggregate function\n");
+#endif
+        return NULL;
+    }
     aggFunc->reset = countReset;
     aggFunc->add = countAdd;
     aggFunc->compute = countCompute;
     aggFunc->state = malloc(sizeof(uint32_t));
+    if (aggFunc->state == NULL) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: Failed to allocate while creating count aggregate function\n");
+#endif
+        free(aggFunc);
+        return NULL;
+    }
     aggFunc->colSize = 4;
     return aggFunc;
 }
@@ -4191,10 +4217,23 @@ void sumCompute(embedDBAggregateFunc *aggFunc, embedDBSchema *outputSchema, void
  */
 embedDBAggregateFunc *createSumAggregate(uint8_t colNum) {
     embedDBAggregateFunc *aggFunc = malloc(sizeof(embedDBAggregateFunc));
+    if (aggFunc == NULL) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: Failed to allocate while creating sum aggregate function\n");
+#endif
+        return NULL;
+    }
     aggFunc->reset = sumReset;
     aggFunc->add = sumAdd;
     aggFunc->compute = sumCompute;
     aggFunc->state = malloc(sizeof(int8_t) + sizeof(int64_t));
+    if (aggFunc->state == NULL) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: Failed to allocate while creating sum aggregate function\n");
+#endif
+        free(aggFunc);
+        return NULL;
+    }
     *((uint8_t *)aggFunc->state + sizeof(int64_t)) = colNum;
     aggFunc->colSize = -8;
     return aggFunc;
@@ -4257,6 +4296,7 @@ embedDBAggregateFunc *createMinAggregate(uint8_t colNum, int8_t colSize) {
 #ifdef PRINT_ERRORS
         printf("ERROR: Failed to allocate while creating min aggregate function\n");
 #endif
+        free(aggFunc);
         return NULL;
     }
     state->colNum = colNum;
@@ -4317,6 +4357,7 @@ embedDBAggregateFunc *createMaxAggregate(uint8_t colNum, int8_t colSize) {
 #ifdef PRINT_ERRORS
         printf("ERROR: Failed to allocate while creating max aggregate function\n");
 #endif
+        free(aggFunc);
         return NULL;
     }
     state->colNum = colNum;
@@ -4414,6 +4455,7 @@ embedDBAggregateFunc *createAvgAggregate(uint8_t colNum, int8_t outputFloatSize)
 #ifdef PRINT_ERRORS
         printf("ERROR: Failed to allocate while creating avg aggregate function\n");
 #endif
+        free(aggFunc);
         return NULL;
     }
     state->colNum = colNum;
diff --git a/src/query-interface/advancedQueries.c b/src/query-interface/advancedQueries.c
index 7ccef2b..8d076f7 100644
--- a/src/query-interface/advancedQueries.c
+++ b/src/query-interface/advancedQueries.c
@@ -224,12 +224,18 @@ embedDBOperator* createTableScanOperator(embedDBState* state, embedDBIterator* i
 #ifdef PRINT_ERRORS
         printf("ERROR: malloc failed while creating TableScan operator\n");
 #endif
+        free(op);
         return NULL;
     }
     memcpy(op->state, &state, sizeof(void*));
     memcpy((int8_t*)op->state + sizeof(void*), &it, sizeof(void*));
 
     op->schema = copySchema(baseSchema);
+    if (op->schema == NULL) {
+        free(op->state);
+        free(op);
+        return NULL;
+    }
     op->input = NULL;
     op->recordBuffer = NULL;
 
@@ -271,6 +277,7 @@ void initProjection(embedDBOperator* op) {
 #ifdef PRINT_ERRORS
             printf("ERROR: Failed to allocate space for projection while building schema\n");
 #endif
+            embedDBFreeSchema(&op->schema);
             return;
         }
         for (uint8_t i = 0; i < numCols; i++) {
@@ -344,6 +351,7 @@ embedDBOperator* createProjectionOperator(embedDBOperator* input, uint8_t numCol
 #ifdef PRINT_ERRORS
         printf("ERROR: malloc failed while creating Projection operator\n");
 #endif
+        free(state);
         return NULL;
     }
 
@@ -451,6 +459,7 @@ embedDBOperator* createSelectionOperator(embedDBOperator* input, uint8_t colNum,
 #ifdef PRINT_ERRORS
         printf("ERROR: Failed to malloc while creating Selection operator\n");
 #endif
+        free(state);
         return NULL;
     }
     op->state = state;
@@ -505,6 +514,7 @@ void initAggregate(embedDBOperator* op) {
 #ifdef PRINT_ERRORS
             printf("ERROR: Failed to malloc while initializing aggregate operator\n");
 #endif
+            embedDBFreeSchema(&op->schema);
             return;
         }
         for (uint8_t i = 0; i < state->functionsLength; i++) {
@@ -636,6 +646,7 @@ embedDBOperator* createAggregateOperator(embedDBOperator* input, int8_t (*groupf
 #ifdef PRINT_ERRORS
         printf("ERROR: Failed to malloc while creating aggregate operator\n");
 #endif
+        free(state);
         return NULL;
     }
 
@@ -695,6 +706,7 @@ void initKeyJoin(embedDBOperator* op) {
 #ifdef PRINT_ERRORS
             printf("ERROR: Failed to malloc while initializing join operator\n");
 #endif
+            embedDBFreeSchema(&op->schema);
             return;
         }
         memcpy(op->schema->columnSizes, schema1->columnSizes, schema1->numCols);
@@ -815,6 +827,7 @@ embedDBOperator* createKeyJoinOperator(embedDBOperator* input1, embedDBOperator*
 #ifdef PRINT_ERRORS
         printf("ERROR: Failed to malloc while creating join operator\n");
 #endif
+        free(op);
         return NULL;
     }
     state->input2 = input2;
@@ -848,10 +861,23 @@ void countCompute(embedDBAggregateFunc* aggFunc, embedDBSchema* outputSchema, vo
  */
 embedDBAggregateFunc* createCountAggregate() {
     embedDBAggregateFunc* aggFunc = malloc(sizeof(embedDBAggregateFunc));
+    if (aggFunc == NULL) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: Failed to allocate while creating count aggregate function\n");
+#endif
+        return NULL;
+    }
     aggFunc->reset = countReset;
     aggFunc->add = countAdd;
     aggFunc->compute = countCompute;
     aggFunc->state = malloc(sizeof(uint32_t));
+    if (aggFunc->state == NULL) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: Failed to allocate while creating count aggregate function\n");
+#endif
+        free(aggFunc);
+        return NULL;
+    }
     aggFunc->colSize = 4;
     return aggFunc;
 }
@@ -899,10 +925,23 @@ void sumCompute(embedDBAggregateFunc* aggFunc, embedDBSchema* outputSchema, void
  */
 embedDBAggregateFunc* createSumAggregate(uint8_t colNum) {
     embedDBAggregateFunc* aggFunc = malloc(sizeof(embedDBAggregateFunc));
+    if (aggFunc == NULL) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: Failed to allocate while creating sum aggregate function\n");
+#endif
+        return NULL;
+    }
     aggFunc->reset = sumReset;
     aggFunc->add = sumAdd;
     aggFunc->compute = sumCompute;
     aggFunc->state = malloc(sizeof(int8_t) + sizeof(int64_t));
+    if (aggFunc->state == NULL) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: Failed to allocate while creating sum aggregate function\n");
+#endif
+        free(aggFunc);
+        return NULL;
+    }
     *((uint8_t*)aggFunc->state + sizeof(int64_t)) = colNum;
     aggFunc->colSize = -8;
     return aggFunc;
@@ -965,6 +1004,7 @@ embedDBAggregateFunc* createMinAggregate(uint8_t colNum, int8_t colSize) {
 #ifdef PRINT_ERRORS
         printf("ERROR: Failed to allocate while creating min aggregate function\n");
 #endif
+        free(aggFunc);
         return NULL;
     }
     state->colNum = colNum;
@@ -1025,6 +1065,7 @@ embedDBAggregateFunc* createMaxAggregate(uint8_t colNum, int8_t colSize) {
 #ifdef PRINT_ERRORS
         printf("ERROR: Failed to allocate while creating max aggregate function\n");
 #endif
+        free(aggFunc);
         return NULL;
     }
     state->colNum = colNum;
@@ -1122,6 +1163,7 @@ embedDBAggregateFunc* createAvgAggregate(uint8_t colNum, int8_t outputFloatSize)
 #ifdef PRINT_ERRORS
         printf("ERROR: Failed to allocate while creating avg aggregate function\n");
 #endif
+        free(aggFunc);
         return NULL;
     }
     state->colNum = colNum;
-- 
2.43.0


From 97a980863097295e8dbead411c39a92577a4763d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:22 +0000
Subject: [PATCH 41/45] fix: a query whose initialisation ran out of memory
 returns no rows instead of crashing

---
 lib/Distribution/embedDB.c            | 60 +++++++++++++++++++++++++--
 src/query-interface/advancedQueries.c | 60 +++++++++++++++++++++++++--
 2 files changed, 114 insertions(+), 6 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index bc2ee15..3a97ce7 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -3414,6 +3414,13 @@ int8_t exec(embedDBOperator *op) {
     return op->next(op);
 }
 
+/**
+ * @return	1 if the operator was initialized successfully, so has a schema and a record buffer, otherwise 0
+ */
+int8_t isOperatorInitialized(embedDBOperator *op) {
+    return op != NULL && op->schema != NULL && op->recordBuffer != NULL;
+}
+
 void initTableScan(embedDBOperator *op) {
     if (op->input != NULL) {
 #ifdef PRINT_ERRORS
@@ -3470,6 +3477,11 @@ int8_t nextTableScan(embedDBOperator *op) {
         return 0;
     }
 
+    // There is nothing to return if the initialization failed
+    if (op->recordBuffer == NULL) {
+        return 0;
+    }
+
     // Get next record
     embedDBState *state = (embedDBState *)(((void **)op->state)[0]);
     embedDBIterator *it = (embedDBIterator *)(((void **)op->state)[1]);
@@ -3548,6 +3560,12 @@ void initProjection(embedDBOperator *op) {
 
     // Init input
     op->input->init(op->input);
+    if (!isOperatorInitialized(op->input)) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: Failed to initialize the input of the projection operator\n");
+#endif
+        return;
+    }
 
     // Get state
     uint8_t numCols = *(uint8_t *)op->state;
@@ -3590,6 +3608,11 @@ void initProjection(embedDBOperator *op) {
 }
 
 int8_t nextProjection(embedDBOperator *op) {
+    // There is nothing to return if the initialization failed
+    if (!isOperatorInitialized(op) || !isOperatorInitialized(op->input)) {
+        return 0;
+    }
+
     uint8_t numCols = *(uint8_t *)op->state;
     uint8_t *cols = (uint8_t *)op->state + 1;
     embedDBSchema *inputSchema = op->input->schema;
@@ -3674,10 +3697,19 @@ void initSelection(embedDBOperator *op) {
 
     // Init input
     op->input->init(op->input);
+    if (!isOperatorInitialized(op->input)) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: Failed to initialize the input of the selection operator\n");
+#endif
+        return;
+    }
 
     // Init output schema
     if (op->schema == NULL) {
         op->schema = copySchema(op->input->schema);
+        if (op->schema == NULL) {
+            return;
+        }
     }
 
     // Init output buffer
@@ -3693,6 +3725,11 @@ void initSelection(embedDBOperator *op) {
 }
 
 int8_t nextSelection(embedDBOperator *op) {
+    // There is nothing to return if the initialization failed
+    if (!isOperatorInitialized(op) || !isOperatorInitialized(op->input)) {
+        return 0;
+    }
+
     embedDBSchema *schema = op->input->schema;
     struct selectionInfo *state = op->state;
 
@@ -3787,6 +3824,12 @@ void initAggregate(embedDBOperator *op) {
 
     // Init input
     op->input->init(op->input);
+    if (!isOperatorInitialized(op->input)) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: Failed to initialize the input of the aggregate operator\n");
+#endif
+        return;
+    }
 
     struct aggregateInfo *state = op->state;
     state->isLastRecordUsable = 0;
@@ -3838,6 +3881,11 @@ void initAggregate(embedDBOperator *op) {
 }
 
 int8_t nextAggregate(embedDBOperator *op) {
+    // There is nothing to return if the initialization failed
+    if (!isOperatorInitialized(op) || !isOperatorInitialized(op->input) || ((struct aggregateInfo *)op->state)->lastRecordBuffer == NULL) {
+        return 0;
+    }
+
     struct aggregateInfo *state = op->state;
     embedDBOperator *input = op->input;
 
@@ -3968,12 +4016,18 @@ void initKeyJoin(embedDBOperator *op) {
     input1->init(input1);
     input2->init(input2);
 
-    embedDBSchema *schema1 = input1->schema;
-    embedDBSchema *schema2 = input2->schema;
-
     // There is nothing to return if the initialization fails
     state->firstCall = 1;
     state->finished = 1;
+    if (!isOperatorInitialized(input1) || !isOperatorInitialized(input2)) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: Failed to initialize the inputs of the join operator\n");
+#endif
+        return;
+    }
+
+    embedDBSchema *schema1 = input1->schema;
+    embedDBSchema *schema2 = input2->schema;
 
     // Check that join is compatible
     if (schema1->columnSizes[0] != schema2->columnSizes[0] || schema1->columnSizes[0] < 0 || schema2->columnSizes[0] < 0) {
diff --git a/src/query-interface/advancedQueries.c b/src/query-interface/advancedQueries.c
index 8d076f7..5759554 100644
--- a/src/query-interface/advancedQueries.c
+++ b/src/query-interface/advancedQueries.c
@@ -122,6 +122,13 @@ int8_t exec(embedDBOperator* op) {
     return op->next(op);
 }
 
+/**
+ * @return	1 if the operator was initialized successfully, so has a schema and a record buffer, otherwise 0
+ */
+int8_t isOperatorInitialized(embedDBOperator* op) {
+    return op != NULL && op->schema != NULL && op->recordBuffer != NULL;
+}
+
 void initTableScan(embedDBOperator* op) {
     if (op->input != NULL) {
 #ifdef PRINT_ERRORS
@@ -178,6 +185,11 @@ int8_t nextTableScan(embedDBOperator* op) {
         return 0;
     }
 
+    // There is nothing to return if the initialization failed
+    if (op->recordBuffer == NULL) {
+        return 0;
+    }
+
     // Get next record
     embedDBState* state = (embedDBState*)(((void**)op->state)[0]);
     embedDBIterator* it = (embedDBIterator*)(((void**)op->state)[1]);
@@ -256,6 +268,12 @@ void initProjection(embedDBOperator* op) {
 
     // Init input
     op->input->init(op->input);
+    if (!isOperatorInitialized(op->input)) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: Failed to initialize the input of the projection operator\n");
+#endif
+        return;
+    }
 
     // Get state
     uint8_t numCols = *(uint8_t*)op->state;
@@ -298,6 +316,11 @@ void initProjection(embedDBOperator* op) {
 }
 
 int8_t nextProjection(embedDBOperator* op) {
+    // There is nothing to return if the initialization failed
+    if (!isOperatorInitialized(op) || !isOperatorInitialized(op->input)) {
+        return 0;
+    }
+
     uint8_t numCols = *(uint8_t*)op->state;
     uint8_t* cols = (uint8_t*)op->state + 1;
     embedDBSchema* inputSchema = op->input->schema;
@@ -382,10 +405,19 @@ void initSelection(embedDBOperator* op) {
 
     // Init input
     op->input->init(op->input);
+    if (!isOperatorInitialized(op->input)) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: Failed to initialize the input of the selection operator\n");
+#endif
+        return;
+    }
 
     // Init output schema
     if (op->schema == NULL) {
         op->schema = copySchema(op->input->schema);
+        if (op->schema == NULL) {
+            return;
+        }
     }
 
     // Init output buffer
@@ -401,6 +433,11 @@ void initSelection(embedDBOperator* op) {
 }
 
 int8_t nextSelection(embedDBOperator* op) {
+    // There is nothing to return if the initialization failed
+    if (!isOperatorInitialized(op) || !isOperatorInitialized(op->input)) {
+        return 0;
+    }
+
     embedDBSchema* schema = op->input->schema;
     struct selectionInfo* state = op->state;
 
@@ -495,6 +532,12 @@ void initAggregate(embedDBOperator* op) {
 
     // Init input
     op->input->init(op->input);
+    if (!isOperatorInitialized(op->input)) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: Failed to initialize the input of the aggregate operator\n");
+#endif
+        return;
+    }
 
     struct aggregateInfo* state = op->state;
     state->isLastRecordUsable = 0;
@@ -546,6 +589,11 @@ void initAggregate(embedDBOperator* op) {
 }
 
 int8_t nextAggregate(embedDBOperator* op) {
+    // There is nothing to return if the initialization failed
+    if (!isOperatorInitialized(op) || !isOperatorInitialized(op->input) || ((struct aggregateInfo*)op->state)->lastRecordBuffer == NULL) {
+        return 0;
+    }
+
     struct aggregateInfo* state = op->state;
     embedDBOperator* input = op->input;
 
@@ -676,12 +724,18 @@ void initKeyJoin(embedDBOperator* op) {
     input1->init(input1);
     input2->init(input2);
 
-    embedDBSchema* schema1 = input1->schema;
-    embedDBSchema* schema2 = input2->schema;
-
     // There is nothing to return if the initialization fails
     state->firstCall = 1;
     state->finished = 1;
+    if (!isOperatorInitialized(input1) || !isOperatorInitialized(input2)) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: Failed to initialize the inputs of the join operator\n");
+#endif
+        return;
+    }
+
+    embedDBSchema* schema1 = input1->schema;
+    embedDBSchema* schema2 = input2->schema;
 
     // Check that join is compatible
     if (schema1->columnSizes[0] != schema2->columnSizes[0] || schema1->columnSizes[0] < 0 || schema2->columnSizes[0] < 0) {
-- 
2.43.0


From 9033ed2b2e29ee03a56630aa86f0729a1372eb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:29 +0000
Subject: [PATCH 42/45] fix: the file interfaces check their allocations

---
 .../dataflashFileInterface.c                     |  4 ++++
 .../desktopFileInterface.c                       | 16 ++++++++++++++++
 lib/SD-File-Interface/SDFileInterface.c          |  8 ++++++++
 3 files changed, 28 insertions(+)

diff --git a/lib/Dataflash-File-Interface/dataflashFileInterface.c b/lib/Dataflash-File-Interface/dataflashFileInterface.c
index 3e8e913..445a601 100644
--- a/lib/Dataflash-File-Interface/dataflashFileInterface.c
+++ b/lib/Dataflash-File-Interface/dataflashFileInterface.c
@@ -45,6 +45,8 @@ typedef struct {
 
 void *setupDataflashFile(uint32_t startPage, uint32_t numPages) {
     DF_FILE_INFO *fileInfo = malloc(sizeof(DF_FILE_INFO));
+    if (fileInfo == NULL)
+        return NULL;
     fileInfo->startPage = startPage;
     fileInfo->numPages = numPages;
     return fileInfo;
@@ -102,6 +104,8 @@ int8_t DF_FLUSH(void *file) {
 
 embedDBFileInterface *getDataflashInterface() {
     embedDBFileInterface *fileInterface = malloc(sizeof(embedDBFileInterface));
+    if (fileInterface == NULL)
+        return NULL;
     fileInterface->close = DF_CLOSE;
     fileInterface->read = DF_READ;
     fileInterface->write = DF_WRITE;
diff --git a/lib/Desktop-File-Interface/desktopFileInterface.c b/lib/Desktop-File-Interface/desktopFileInterface.c
index 9e1b32a..818dc22 100644
--- a/lib/Desktop-File-Interface/desktopFileInterface.c
+++ b/lib/Desktop-File-Interface/desktopFileInterface.c
@@ -9,8 +9,14 @@ typedef struct {
 
 void *setupFile(char *filename) {
     FILE_INFO *fileInfo = malloc(sizeof(FILE_INFO));
+    if (fileInfo == NULL)
+        return NULL;
     int nameLen = strlen(filename);
     fileInfo->filename = calloc(1, nameLen + 1);
+    if (fileInfo->filename == NULL) {
+        free(fileInfo);
+        return NULL;
+    }
     memcpy(fileInfo->filename, filename, nameLen);
     fileInfo->file = NULL;
     return fileInfo;
@@ -65,6 +71,12 @@ int8_t MOCK_FILE_ERASE(uint32_t startPage, uint32_t endPage, uint32_t pageSize,
     /* Setup data to insert */
     size_t memorySize = (endPage - startPage) * pageSize;
     char *buffer = malloc(memorySize);
+    if (buffer == NULL) {
+#ifdef PRINT_ERRORS
+        printf("Error allocating memory for erase.\n");
+#endif
+        return 0;
+    }
     memset(buffer, 1, memorySize);
 
     /* Erase data */
@@ -105,6 +117,8 @@ int8_t FILE_OPEN(void *file, uint8_t mode) {
 
 embedDBFileInterface *getFileInterface() {
     embedDBFileInterface *fileInterface = malloc(sizeof(embedDBFileInterface));
+    if (fileInterface == NULL)
+        return NULL;
     fileInterface->close = FILE_CLOSE;
     fileInterface->read = FILE_READ;
     fileInterface->write = FILE_WRITE;
@@ -116,6 +130,8 @@ embedDBFileInterface *getFileInterface() {
 
 embedDBFileInterface *getMockEraseFileInterface() {
     embedDBFileInterface *fileInterface = malloc(sizeof(embedDBFileInterface));
+    if (fileInterface == NULL)
+        return NULL;
     fileInterface->close = FILE_CLOSE;
     fileInterface->read = FILE_READ;
     fileInterface->write = FILE_WRITE;
diff --git a/lib/SD-File-Interface/SDFileInterface.c b/lib/SD-File-Interface/SDFileInterface.c
index 09c7fe5..7263c45 100644
--- a/lib/SD-File-Interface/SDFileInterface.c
+++ b/lib/SD-File-Interface/SDFileInterface.c
@@ -42,8 +42,14 @@ typedef struct {
 
 void *setupSDFile(char *filename) {
     SD_FILE_INFO *fileInfo = malloc(sizeof(SD_FILE_INFO));
+    if (fileInfo == NULL)
+        return NULL;
     int nameLen = strlen(filename);
     fileInfo->filename = calloc(1, nameLen + 1);
+    if (fileInfo->filename == NULL) {
+        free(fileInfo);
+        return NULL;
+    }
     memcpy(fileInfo->filename, filename, nameLen);
     fileInfo->sdFile = NULL;
     return fileInfo;
@@ -126,6 +132,8 @@ int8_t FILE_OPEN(void *file, uint8_t mode) {
 
 embedDBFileInterface *getSDInterface() {
     embedDBFileInterface *fileInterface = malloc(sizeof(embedDBFileInterface));
+    if (fileInterface == NULL)
+        return NULL;
     fileInterface->close = FILE_CLOSE;
     fileInterface->read = FILE_READ;
     fileInterface->write = FILE_WRITE;
-- 
2.43.0


From 3b35a329f65886c521bcb603928c23cd82e774e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:42 +0000
Subject: [PATCH 43/45] fix: variable data of the largest possible keys was
 reported lost, or other bytes were returned for it

---
 lib/Distribution/embedDB.c | 26 +++++++++++++++++++++-----
 lib/Distribution/embedDB.h |  1 +
 src/embedDB/embedDB.c      | 26 +++++++++++++++++++++-----
 src/embedDB/embedDB.h      |  1 +
 4 files changed, 44 insertions(+), 10 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 3a97ce7..10e5ae4 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -552,6 +552,7 @@ bool readRecoveredIndexPage(embedDBState *state, id_t physicalPageId, id_t *logi
 int8_t embedDBInitIndexFromFile(embedDBState *state);
 bool findIndexRecord(embedDBState *state, id_t dataPage, void **bitmap);
 int8_t embedDBInitVarData(embedDBState *state);
+void raiseMinVarRecordId(embedDBState *state, uint64_t lastErasedRecordId);
 bool readRecoveredVarPage(embedDBState *state, id_t physicalPageId, id_t *logicalPageId);
 int8_t embedDBInitVarDataFromFile(embedDBState *state);
 int8_t shiftRecordLevelConsistencyBlocks(embedDBState *state);
@@ -1286,6 +1287,7 @@ int8_t embedDBInitVarData(embedDBState *state) {
     state->variableDataHeaderSize = state->keySize + sizeof(id_t);
     state->currentVarLoc = state->variableDataHeaderSize;
     state->minVarRecordId = UINT64_MAX;
+    state->varDataStatus = 0;
     state->numAvailVarPages = state->numVarPages;
     state->nextVarPageId = 0;
 
@@ -1420,10 +1422,12 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
         uint64_t minKey = 0;
         memcpy(&minKey, embedDBGetMinKey(state, dataBuffer), state->keySize);
         state->minVarRecordId = minKey;
+        state->varDataStatus = 1;
     } else {
         /* We lose some records, but know for sure we have all records larger than this*/
-        memcpy(&(state->minVarRecordId), (int8_t *)buffer + sizeof(id_t), state->keySize);
-        state->minVarRecordId++;
+        uint64_t lastErasedRecordId = 0;
+        memcpy(&lastErasedRecordId, (int8_t *)buffer + sizeof(id_t), state->keySize);
+        raiseMinVarRecordId(state, lastErasedRecordId);
     }
 
     state->numAvailVarPages = state->numVarPages + minVarPageId - maxLogicalVariablePageId - 1;
@@ -1895,9 +1899,10 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
         return putResult;
     }
 
-    if (state->minVarRecordId == UINT64_MAX) {
+    if (state->varDataStatus == 0) {
         state->minVarRecordId = 0;
         memcpy(&state->minVarRecordId, key, state->keySize);
+        state->varDataStatus = 1;
     }
 
     return 0;
@@ -2588,7 +2593,7 @@ int8_t embedDBSetupVarDataStream(embedDBState *state, void *key, embedDBVarDataS
     }
 
     // Check if the variable data associated with this key has been overwritten due to file wrap around
-    if (state->minVarRecordId == UINT64_MAX || state->compareKey(key, &state->minVarRecordId) < 0) {
+    if (state->varDataStatus != 1 || state->compareKey(key, &state->minVarRecordId) < 0) {
         *varData = NULL;
         return 1;
     }
@@ -2914,6 +2919,17 @@ id_t writeIndexPage(embedDBState *state, void *buffer) {
     return pageNum;
 }
 
+/**
+ * @brief	Sets the smallest key that still has its variable data to the one after the given key.
+ * @param	state				embedDB algorithm state structure
+ * @param	lastErasedRecordId	Largest key that lost its variable data
+ */
+void raiseMinVarRecordId(embedDBState *state, uint64_t lastErasedRecordId) {
+    state->minVarRecordId = lastErasedRecordId + 1;
+    // There is no key after the largest possible one
+    state->varDataStatus = state->compareKey(&state->minVarRecordId, &lastErasedRecordId) > 0 ? 1 : -1;
+}
+
 /**
  * @brief	Writes variable data page in buffer to storage. Returns page number.
  * @param	state	embedDB algorithm state structure
@@ -2949,7 +2965,7 @@ id_t writeVariablePage(embedDBState *state, void *buffer) {
         }
         invalidateBufferedPages(&state->bufferedVarPage, physicalPageId, physicalPageId + state->eraseSizeInPages);
         state->numAvailVarPages += state->eraseSizeInPages;
-        state->minVarRecordId = lastErasedRecordId + 1;  // Add one because lastErasedRecordId is a record that is erased
+        raiseMinVarRecordId(state, lastErasedRecordId);
     }
 
     // Add logical page number to data page
diff --git a/lib/Distribution/embedDB.h b/lib/Distribution/embedDB.h
index 706a3c2..f138ba3 100644
--- a/lib/Distribution/embedDB.h
+++ b/lib/Distribution/embedDB.h
@@ -390,6 +390,7 @@ typedef struct {
     uint32_t minDataPageId;                                               /* Lowest logical data page id that is saved on file */
     uint32_t minIndexPageId;                                              /* Lowest logical index page id that is saved on file */
     uint64_t minVarRecordId;                                              /* Minimum record id that we still have variable data for */
+    int8_t varDataStatus;                                                 /* 1 if minVarRecordId is set, 0 if no variable data has been stored yet, -1 if that of every possible key is gone */
     id_t nextDataPageId;                                                  /* Next logical page id. Page id is an incrementing value and may not always be same as physical page id. */
     id_t nextIdxPageId;                                                   /* Next logical page id for index. Page id is an incrementing value and may not always be same as physical page id. */
     id_t nextVarPageId;                                                   /* Page number of next var page to be written */
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 2816606..82908e6 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -59,6 +59,7 @@ bool readRecoveredIndexPage(embedDBState *state, id_t physicalPageId, id_t *logi
 int8_t embedDBInitIndexFromFile(embedDBState *state);
 bool findIndexRecord(embedDBState *state, id_t dataPage, void **bitmap);
 int8_t embedDBInitVarData(embedDBState *state);
+void raiseMinVarRecordId(embedDBState *state, uint64_t lastErasedRecordId);
 bool readRecoveredVarPage(embedDBState *state, id_t physicalPageId, id_t *logicalPageId);
 int8_t embedDBInitVarDataFromFile(embedDBState *state);
 int8_t shiftRecordLevelConsistencyBlocks(embedDBState *state);
@@ -793,6 +794,7 @@ int8_t embedDBInitVarData(embedDBState *state) {
     state->variableDataHeaderSize = state->keySize + sizeof(id_t);
     state->currentVarLoc = state->variableDataHeaderSize;
     state->minVarRecordId = UINT64_MAX;
+    state->varDataStatus = 0;
     state->numAvailVarPages = state->numVarPages;
     state->nextVarPageId = 0;
 
@@ -927,10 +929,12 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
         uint64_t minKey = 0;
         memcpy(&minKey, embedDBGetMinKey(state, dataBuffer), state->keySize);
         state->minVarRecordId = minKey;
+        state->varDataStatus = 1;
     } else {
         /* We lose some records, but know for sure we have all records larger than this*/
-        memcpy(&(state->minVarRecordId), (int8_t *)buffer + sizeof(id_t), state->keySize);
-        state->minVarRecordId++;
+        uint64_t lastErasedRecordId = 0;
+        memcpy(&lastErasedRecordId, (int8_t *)buffer + sizeof(id_t), state->keySize);
+        raiseMinVarRecordId(state, lastErasedRecordId);
     }
 
     state->numAvailVarPages = state->numVarPages + minVarPageId - maxLogicalVariablePageId - 1;
@@ -1401,9 +1405,10 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
         return putResult;
     }
 
-    if (state->minVarRecordId == UINT64_MAX) {
+    if (state->varDataStatus == 0) {
         state->minVarRecordId = 0;
         memcpy(&state->minVarRecordId, key, state->keySize);
+        state->varDataStatus = 1;
     }
 
     return 0;
@@ -2094,7 +2099,7 @@ int8_t embedDBSetupVarDataStream(embedDBState *state, void *key, embedDBVarDataS
     }
 
     // Check if the variable data associated with this key has been overwritten due to file wrap around
-    if (state->minVarRecordId == UINT64_MAX || state->compareKey(key, &state->minVarRecordId) < 0) {
+    if (state->varDataStatus != 1 || state->compareKey(key, &state->minVarRecordId) < 0) {
         *varData = NULL;
         return 1;
     }
@@ -2420,6 +2425,17 @@ id_t writeIndexPage(embedDBState *state, void *buffer) {
     return pageNum;
 }
 
+/**
+ * @brief	Sets the smallest key that still has its variable data to the one after the given key.
+ * @param	state				embedDB algorithm state structure
+ * @param	lastErasedRecordId	Largest key that lost its variable data
+ */
+void raiseMinVarRecordId(embedDBState *state, uint64_t lastErasedRecordId) {
+    state->minVarRecordId = lastErasedRecordId + 1;
+    // There is no key after the largest possible one
+    state->varDataStatus = state->compareKey(&state->minVarRecordId, &lastErasedRecordId) > 0 ? 1 : -1;
+}
+
 /**
  * @brief	Writes variable data page in buffer to storage. Returns page number.
  * @param	state	embedDB algorithm state structure
@@ -2455,7 +2471,7 @@ id_t writeVariablePage(embedDBState *state, void *buffer) {
         }
         invalidateBufferedPages(&state->bufferedVarPage, physicalPageId, physicalPageId + state->eraseSizeInPages);
         state->numAvailVarPages += state->eraseSizeInPages;
-        state->minVarRecordId = lastErasedRecordId + 1;  // Add one because lastErasedRecordId is a record that is erased
+        raiseMinVarRecordId(state, lastErasedRecordId);
     }
 
     // Add logical page number to data page
diff --git a/src/embedDB/embedDB.h b/src/embedDB/embedDB.h
index 64e21dd..722f096 100644
--- a/src/embedDB/embedDB.h
+++ b/src/embedDB/embedDB.h
@@ -209,6 +209,7 @@ typedef struct {
     uint32_t minDataPageId;                                               /* Lowest logical data page id that is saved on file */
     uint32_t minIndexPageId;                                              /* Lowest logical index page id that is saved on file */
     uint64_t minVarRecordId;                                              /* Minimum record id that we still have variable data for */
+    int8_t varDataStatus;                                                 /* 1 if minVarRecordId is set, 0 if no variable data has been stored yet, -1 if that of every possible key is gone */
     id_t nextDataPageId;                                                  /* Next logical page id. Page id is an incrementing value and may not always be same as physical page id. */
     id_t nextIdxPageId;                                                   /* Next logical page id for index. Page id is an incrementing value and may not always be same as physical page id. */
     id_t nextVarPageId;                                                   /* Page number of next var page to be written */
-- 
2.43.0


From 75791255f7265f985d90923deca2b21b7a23caca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:43 +0000
Subject: [PATCH 44/45] fix: a variable data area of 4 GB or more was accepted
 although its locations do not fit 4 bytes

---
 lib/Distribution/embedDB.c | 8 ++++++++
 src/embedDB/embedDB.c      | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 10e5ae4..4cfbd4c 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -752,6 +752,14 @@ int8_t validateConfiguration(embedDBState *state) {
             return -1;
         }
 
+        /* The location of variable data is stored in 4 bytes */
+        if ((uint64_t)state->numVarPages * state->pageSize > UINT32_MAX) {
+#ifdef PRINT_ERRORS
+            printf("ERROR: The space for variable data must be less than 4 GB.\n");
+#endif
+            return -1;
+        }
+
         if (state->varFile == NULL) {
 #ifdef PRINT_ERRORS
             printf("ERROR: No variable data file provided!\n");
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 82908e6..8697113 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -259,6 +259,14 @@ int8_t validateConfiguration(embedDBState *state) {
             return -1;
         }
 
+        /* The location of variable data is stored in 4 bytes */
+        if ((uint64_t)state->numVarPages * state->pageSize > UINT32_MAX) {
+#ifdef PRINT_ERRORS
+            printf("ERROR: The space for variable data must be less than 4 GB.\n");
+#endif
+            return -1;
+        }
+
         if (state->varFile == NULL) {
 #ifdef PRINT_ERRORS
             printf("ERROR: No variable data file provided!\n");
-- 
2.43.0


From ea590df1e5b85ee00cffbaaee39c28354053e93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:49 +0000
Subject: [PATCH 45/45] fix: pages behind 4 GB of an SD file were read from and
 written to other pages

---
 lib/SD-File-Interface/SDFileInterface.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/SD-File-Interface/SDFileInterface.c b/lib/SD-File-Interface/SDFileInterface.c
index 7263c45..f07864b 100644
--- a/lib/SD-File-Interface/SDFileInterface.c
+++ b/lib/SD-File-Interface/SDFileInterface.c
@@ -63,8 +63,15 @@ void tearDownSDFile(void *file) {
     free(file);
 }
 
+/* A file on an SD card cannot be 4 GB or larger, so neither can the location of a page */
+static int8_t isInFile(uint32_t pageNum, uint32_t pageSize) {
+    return ((uint64_t)pageNum + 1) * pageSize <= UINT32_MAX;
+}
+
 int8_t FILE_READ(void *buffer, uint32_t pageNum, uint32_t pageSize, void *file) {
     SD_FILE_INFO *fileInfo = (SD_FILE_INFO *)file;
+    if (!isInFile(pageNum, pageSize))
+        return 0;
     if (sd_fseek(fileInfo->sdFile, pageSize * pageNum, SEEK_SET) != 0)
         return 0;
     return sd_fread(buffer, pageSize, 1, fileInfo->sdFile);
@@ -72,6 +79,8 @@ int8_t FILE_READ(void *buffer, uint32_t pageNum, uint32_t pageSize, void *file)
 
 int8_t FILE_WRITE(void *buffer, uint32_t pageNum, uint32_t pageSize, void *file) {
     SD_FILE_INFO *fileInfo = (SD_FILE_INFO *)file;
+    if (!isInFile(pageNum, pageSize))
+        return 0;
     size_t fileSize = sd_length(fileInfo->sdFile);
     size_t requiredSize = pageNum * pageSize;
     if (fileSize < pageNum * pageSize) {
-- 
2.43.0

