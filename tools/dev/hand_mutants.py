# name, file, [old, new, ...], properties whose checks have to object
MUT = [
("getmax-int8", "E", ["int16_t count = EMBEDDB_GET_COUNT(buffer);\n    return", "int8_t count = EMBEDDB_GET_COUNT(buffer);\n    return"], "C01 C04"),
("node-maxerror", "E", ["        first = 0;\n        last = count - 1;\n    }\n\n    if (middle", "        first = middle - state->maxError < 0 ? 0 : middle - state->maxError;\n        last = middle + state->maxError >= count ? count - 1 : middle + state->maxError;\n    }\n\n    if (middle"], "C01"),
("thiskey-4", "E", ["    memcpy(&thisKey, key, state->keySize);\n\n    void *buf", "    memcpy(&thisKey, key, min(state->keySize, 4));\n\n    void *buf"], "C01"),
("slope-4", "E", ["    memcpy(&thisKey, key, state->keySize);\n\n    // the key", "    memcpy(&thisKey, key, min(state->keySize, 4));\n\n    // the key"], "C01"),
("bufmin-i32", "E", ["        uint64_t bufMinKey = 0;", "        uint32_t bufMinKey = 0;\n        (void)0;"], "C01"),
("count-u8", "E", ["        uint32_t pageRecordCount = EMBEDDB_GET_COUNT(buf);", "        uint8_t pageRecordCount = EMBEDDB_GET_COUNT(buf);"], "C02"),
("skip-page-max", "E", ["        while (it->nextDataRec < pageRecordCount) {", "        if (it->nextDataRec == 0 && pageRecordCount > 0 && it->minKey != NULL && state->compareKey(embedDBGetMaxKey(state, buf), it->minKey) <= 0) {\n            it->nextDataPage++;\n            continue;\n        }\n        while (it->nextDataRec < pageRecordCount) {"], "C02"),
("stop-page-max", "E", ["        // Finished reading through whole data page and didn't find a match\n", "        // Finished reading through whole data page and didn't find a match\n        if (it->maxKey != NULL && it->maxData != NULL && pageRecordCount < state->maxRecordsPerPage) return 0;\n"], "C02 C03"),
("scan-skip-buffer-data", "E", ["        if (it->nextDataPage == state->nextDataPageId) {\n            searchWriteBuf = 1;", "        if (it->nextDataPage == state->nextDataPageId) {\n            if (EMBEDDB_USING_BMAP(state->parameters) && it->queryBitmap != NULL && !bitmapOverlap(it->queryBitmap, (uint8_t *)EMBEDDB_GET_BITMAP(state->buffer), 1)) return 0;\n            searchWriteBuf = 1;"], "C03"),
("overlap-int8", "E", ["        if ((*((uint8_t *)(bm1 + i)) & *((uint8_t *)(bm2 + i))) >= 1)", "        if ((int8_t)(*((uint8_t *)(bm1 + i)) & *((uint8_t *)(bm2 + i))) >= 1)"], "C03"),
("idx-count-gt", "E", ["} else if (dataPage - firstDataPage >= count) {", "} else if (dataPage - firstDataPage > count) {"], "C03"),
("idx-flush-stale-first", "E", ["        initBufferPage(state, EMBEDDB_INDEX_WRITE_BUFFER);\n\n        /* Add page id to minimum value spot in page */\n        memcpy((int8_t *)buf + 8, &state->nextDataPageId, sizeof(id_t));\n\n        if", "        initBufferPage(state, EMBEDDB_INDEX_WRITE_BUFFER);\n\n        /* Add page id to minimum value spot in page */\n        memcpy((int8_t *)buf + 8, &state->minDataPageId, sizeof(id_t));\n\n        if"], "C03 C13 C29"),
("order-full-page", "E", ["previousKey = embedDBGetMaxKey(state, (int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_READ_BUFFER);", "previousKey = (int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_READ_BUFFER + state->headerSize + state->recordSize * (state->maxRecordsPerPage - 1);"], "C04"),
("order-compare-neg", "E", ["if (state->compareKey(key, previousKey) != 1) {", "if (state->compareKey(key, previousKey) == -1) {"], "C04"),
("putvar-late-check", "E", ["    int8_t orderResult = checkKeyOrder(state, key);\n    if (orderResult != 0) {\n        return orderResult;\n    }\n\n    if (variableData == NULL) {", "    if (variableData == NULL) {\n        int8_t orderResult = checkKeyOrder(state, key);\n        if (orderResult != 0) return orderResult;", "    // Perform the regular insert\n    int8_t putResult = putRecord(", "    int8_t orderResult = checkKeyOrder(state, key);\n    if (orderResult != 0) return orderResult;\n    int8_t putResult = putRecord("], "C04"),
("order-recovered", "E", ["    if (state->nextDataPageId > 0 || count > 0) {\n        void *previousKey", "    if ((state->nextDataPageId > 0 && state->numAvailDataPages < state->numDataPages) || count > 0) {\n        void *previousKey"], "C04"),
("avail-le-1", "E", ["    if (state->numAvailDataPages <= 0) {", "    if (state->numAvailDataPages <= (state->minDataPageId > 0)) {"], "C05"),
("avail-drop2", "E", ["        state->minDataPageId += state->eraseSizeInPages;\n\n        /* remove any spline points related to these pages */\n        if (!EMBEDDB_USING_BINARY_SEARCH(state->parameters) && !EMBEDDB_DISABLED_SPLINE_CLEAN(state->parameters)) {\n            cleanSpline(state, state->minDataPageId);\n        }\n    }\n\n    /* Seek", "        state->minDataPageId = pageNum + state->eraseSizeInPages - state->numDataPages + (pageNum / state->numDataPages > 2);\n\n        /* remove any spline points related to these pages */\n        if (!EMBEDDB_USING_BINARY_SEARCH(state->parameters) && !EMBEDDB_DISABLED_SPLINE_CLEAN(state->parameters)) {\n            cleanSpline(state, state->minDataPageId);\n        }\n    }\n\n    /* Seek"], "C05"),
("clean-le", "E", ["        if (currentPageNumber < minPageNumber) {", "        if (currentPageNumber <= minPageNumber + 1) {"], "C05 C14"),
("rlc-wrapped-23", "E", ["haveWrapped ? 2 : 3", "haveWrapped ? 3 : 2"], "C05 C22"),
("rlc-erase-2", "E", ["haveWrapped ? 2 : 3", "2"], "C22"),
("var-len16", "E", ["    memcpy(&dataLen, (int8_t *)varBuf + pageOffset, sizeof(uint32_t));", "    memcpy(&dataLen, (int8_t *)varBuf + pageOffset, sizeof(uint16_t));"], "C06"),
("var-written16", "E", ["    uint32_t amtWritten = 0;", "    uint16_t amtWritten = 0;"], "C06"),
("var-amt8", "E", ["        uint16_t amtToWrite = min(", "        uint8_t amtToWrite = min("], "C06"),
("var-off-i16", "E", ["        uint16_t pageOffset = stream->fileOffset % state->pageSize;", "        int16_t pageOffset = stream->fileOffset % state->pageSize;"], "C06"),
("var-off-u8", "E", ["    uint32_t pageOffset = varDataAddr % state->pageSize;", "    uint8_t pageOffset = varDataAddr % state->pageSize;"], "C06"),
("var-fit-5", "E", ["state->currentVarLoc % state->pageSize > state->pageSize - 4)", "state->currentVarLoc % state->pageSize > state->pageSize - 3)"], "C06"),
("var-zero-len-none", "E", ["    if (variableData == NULL) {", "    if (variableData == NULL || length == 0) {"], "C06"),
("var-lost-off", "E", ["state->minVarRecordId = lastErasedRecordId + 1;", "state->minVarRecordId = lastErasedRecordId;"], "C07"),
("var-lost-first-page", "E", ["        id_t pageNum = (physicalPageId + state->eraseSizeInPages - 1) % state->numVarPages;", "        id_t pageNum = physicalPageId % state->numVarPages;"], "C07"),
("var-lost-le", "E", ["state->compareKey(key, &state->minVarRecordId) < 0", "state->compareKey(key, &state->minVarRecordId) <= 0"], "C06 C07"),
("var-lost-4", "E", ["        uint64_t lastErasedRecordId = 0;\n", "        uint32_t lastErasedRecordId = 0;\n", "EMBEDDB_VAR_READ_BUFFER(state->parameters) + sizeof(id_t), state->keySize);", "EMBEDDB_VAR_READ_BUFFER(state->parameters) + sizeof(id_t), min(4, state->keySize));"], "C07"),
("var-header-cont", "E", ["            // Update the header to include the maximum key value stored on this page and account for page number\n            memcpy((int8_t *)buf + sizeof(id_t), key, state->keySize);", "            // Update the header to include the maximum key value stored on this page and account for page number\n            if (length > 0) memcpy((int8_t *)buf + sizeof(id_t), key, state->keySize);"], "C29 C07"),
("var-header-cont2", "E", ["            // Update the header to include the maximum key value stored on this page and account for page number\n            memcpy((int8_t *)buf + sizeof(id_t), key, state->keySize);", "            // Update the header to include the maximum key value stored on this page and account for page number\n            if (length < state->pageSize) memcpy((int8_t *)buf + sizeof(id_t), key, state->keySize);"], "C29 C07"),
("nextvar-rec8", "E", ["    count_t recordNum = it->nextDataRec - 1;", "    uint8_t recordNum = it->nextDataRec - 1;"], "C08"),
("nextvar-lost-end", "E", ["        case 0:\n        case 1:\n            return 1;\n        case 2:", "        case 0:\n            return 1;\n        case 1:\n        case 2:"], "C08"),
("nextvar-noflush-wrapped", "E", ["    if (it->nextDataPage == state->nextDataPageId) {\n        // the record", "    if (it->nextDataPage == state->nextDataPageId && it->nextDataPage != 0) {\n        // the record"], "C08"),
("reopen-avail", "E", ["    state->numAvailDataPages = state->numDataPages + state->minDataPageId - maxLogicalPageId - 1;\n", "    state->numAvailDataPages = state->numDataPages - (maxLogicalPageId + 1) % state->numDataPages;\n"], "C09"),
("reopen-spline-short", "E", ["    id_t numberOfPagesToRead = state->nextDataPageId - state->minDataPageId;", "    id_t numberOfPagesToRead = state->nextDataPageId - state->minDataPageId - 1;"], "C09 C14"),
("reopen-spline-phys", "E", ["embedDBGetMinKey(state, buffer), pageNumberToRead++);", "embedDBGetMinKey(state, buffer), pageNumberToRead++ % state->numDataPages);"], "C09"),
("reopen-maxkey-skip", "E", ["    state->numAvailVarPages = state->numVarPages + minVarPageId - maxLogicalVariablePageId - 1;", "    state->numAvailVarPages = state->numVarPages - (maxLogicalVariablePageId + 1) % state->numVarPages;"], "C09 C12"),
("reopen-varloc", "E", ["    state->currentVarLoc = state->nextVarPageId % state->numVarPages * state->pageSize + state->variableDataHeaderSize;", "    state->currentVarLoc = state->nextVarPageId * state->pageSize + state->variableDataHeaderSize;"], "C09 C12"),
("reset-keeps-index", "E", ["    if (!EMBEDDB_RESETING_DATA(state->parameters) && state->nextDataPageId > 0) {", "    if (state->nextDataPageId > 0 || EMBEDDB_RESETING_DATA(state->parameters)) {"], "C09 C13"),
("recover-first-only", "E", ["            minLogicalPageId = logicalPageId;\n        }\n\n        /* If", "            minLogicalPageId = logicalPageId > blockSize ? logicalPageId : minLogicalPageId;\n        }\n\n        /* If"], "C10 C09"),
("recover-count-lt", "E", ["numRecords > 0 && numRecords <= state->maxRecordsPerPage;", "numRecords > 0 && numRecords < state->maxRecordsPerPage + (physicalPageId == 0);"], "C10 C09"),
("recover-no-erase", "E", ["        if (minLogicalPageId > 0 && physicalPageId % blockSize == 0 && eraseDataBlock(state, physicalPageId) != 0) {", "        if (minLogicalPageId > blockSize && physicalPageId % blockSize == 0 && eraseDataBlock(state, physicalPageId) != 0) {"], "C22"),
("rlc-erase-at-0", "E", ["state->nextRLCPhysicalPageLocation % state->eraseSizeInPages == 1) {", "state->nextRLCPhysicalPageLocation % state->eraseSizeInPages == 0) {", "if (state->nextRLCPhysicalPageLocation == eraseStartingPage + 1) {", "if (state->nextRLCPhysicalPageLocation == eraseStartingPage) {"], "C11"),
("rlc-keep-le", "E", ["(rlcMaxPage < blockSize ? blockSize : 0)", "(rlcMaxPage <= blockSize ? blockSize : 0)"], "C11"),
("rlc-scan-short", "E", ["    for (uint32_t i = 0; i < blockSize * 2; i++) {\n        physicalPageId", "    for (uint32_t i = 0; i < blockSize * 2 - 1; i++) {\n        physicalPageId"], "C11"),
("rlc-scan-first", "E", ["logicalPageId == nextLogicalPageId && numRecords <= state->maxRecordsPerPage && numRecords > rlcMaxRecordCount", "logicalPageId == nextLogicalPageId && numRecords < state->maxRecordsPerPage && numRecords > rlcMaxRecordCount"], "C11"),
("rlc-noflushvar", "E", ["    if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters) && embedDBFlushVar(state) != 0) {\n        return -1;\n    }\n\n    // Perform", "    if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters) && EMBEDDB_GET_COUNT(state->buffer) > 0 && embedDBFlushVar(state) != 0) {\n        return -1;\n    }\n\n    // Perform"], "C11 C12"),
("rlc-shift-flush", "E", ["    if (state->nextDataPageId % state->eraseSizeInPages != 0 || state->rlcPhysicalStartingPage != state->nextDataPageId % state->numDataPages) {", "    if (state->nextDataPageId % state->eraseSizeInPages != 0 || state->nextDataPageId == state->numDataPages) {"], "C11 C22 C05"),
("rlc-next-modulo", "E", ["        state->nextRLCPhysicalPageLocation = (state->rlcPhysicalStartingPage + rlcMaxPage + 1) % state->numDataPages;", "        state->nextRLCPhysicalPageLocation = state->rlcPhysicalStartingPage + rlcMaxPage + 1;"], "C11 C22"),
("var-recover-noinc", "E", ["        state->minVarRecordId++;\n", "        ;\n"], "C12"),
("var-recover-zero", "E", ["        state->minVarRecordId = minKey;\n", "        state->minVarRecordId = minKey + (state->minDataPageId > 0);\n"], "C12 C09"),
("var-recover-mindata", "E", ["readResult = readPage(state, state->minDataPageId % state->numDataPages);", "readResult = readPage(state, (state->nextDataPageId - 1) % state->numDataPages);"], "C12 C09"),
("idx-init-first0", "E", ["    *ptr = state->nextDataPageId;", "    *ptr = state->minDataPageId;"], "C13"),
("idx-recover-avail", "E", ["    state->numAvailIndexPages = state->numIndexPages + state->minIndexPageId - maxLogicalIndexPageId - 1;", "    state->numAvailIndexPages = state->numIndexPages - (maxLogicalIndexPageId + 1) % state->numIndexPages;"], "C13 C22"),
("idxpage-16", "E", ["void indexPage(embedDBState *state, uint32_t pageNumber) {", "void indexPage(embedDBState *state, uint16_t pageNumber) {"], "C14 C01"),
("spline-loc-early", "S", ["    spl->lastLoc = page;\n\n    /* Add last key", "    /* Add last key", "    /* Check if next point still in error corridor */", "    uint32_t prevLoc = spl->lastLoc;\n    spl->lastLoc = page;\n    (void)prevLoc;\n    /* Check if next point still in error corridor */"], "C15"),
("spline-skip-lower", "S", ["        if (splineIsRight(lowerXDiff, lowerYDiff, xdiff, (int64_t)splineLowerPage(spl, page) - lastPage) == 1) {", "        if (spl->maxError > 1 && splineIsRight(lowerXDiff, lowerYDiff, xdiff, (int64_t)splineLowerPage(spl, page) - lastPage) == 1) {"], "C15"),
("spline-skip-upper", "S", ["        if (splineIsLeft(upperXDiff, upperYDiff, xdiff, (int64_t)splineUpperPage(spl, page) - lastPage) == 1) {", "        if (page % 4 != 3 && splineIsLeft(upperXDiff, upperYDiff, xdiff, (int64_t)splineUpperPage(spl, page) - lastPage) == 1) {"], "C15"),
("spline-erase-count", "S", ["    if (numPoints > spl->count || spl->count - numPoints == 1)", "    if (numPoints > spl->count || spl->count - numPoints <= 2)"], "C15 C23"),
("spline-find-high", "S", ["? lastSplinePointPage : splineUpperPage(spl, locationEstimate);", "? lastSplinePointPage : locationEstimate + (spl->maxError > 0);"], "C15 C01"),
("spline-find-low", "S", ["    id_t lowEstiamte = splineLowerPage(spl, locationEstimate);", "    id_t lowEstiamte = max(splineLowerPage(spl, locationEstimate), downPage + (locationEstimate > downPage + 1));"], "C15 C02"),
("spline-first-evict", "S", ["        memcpy(&lowEstimate, (int8_t *)spl->firstSplinePoint + spl->keySize, sizeof(uint32_t));", "        memcpy(&lowEstimate, (int8_t *)splinePointLocation(spl, 0) + spl->keySize, sizeof(uint32_t));"], "C15 C14"),
("spline-temp-keep", "S", ["        spl->tempLastPoint = 0;\n\n        /* Update", "        spl->tempLastPoint = spl->count >= spl->size;\n\n        /* Update"], "C15"),
("cmp32-sub", "U", ["    if (i1 < i2)\n        return -1;\n    if (i1 > i2)\n        return 1;\n    return 0;\n}\n\nint8_t int64", "    int32_t d = (int32_t)((uint32_t)i1 - (uint32_t)i2);\n    return d < 0 ? -1 : d > 0;\n}\n\nint8_t int64"], "C16"),
("cmp64-32", "U", ["    int64_t i1, i2;", "    int32_t i1, i2;", "    memcpy(&i1, a, sizeof(int64_t));\n    memcpy(&i2, b, sizeof(int64_t));", "    memcpy(&i1, (int8_t *)a + 4 * (memcmp((int8_t *)a + 4, (int8_t *)b + 4, 4) != 0), sizeof(int32_t));\n    memcpy(&i2, (int8_t *)b + 4 * (memcmp((int8_t *)a + 4, (int8_t *)b + 4, 4) != 0), sizeof(int32_t));"], "C16"),
("bm8-lastbucket", "U", ["    else if (val < 100)\n        *bmval = *bmval | 2;\n    else\n        *bmval = *bmval | 1;", "    else if (val < 100)\n        *bmval = *bmval | 2;\n    else if (val < 1000)\n        *bmval = *bmval | 1;"], "C16"),
("bm16-int16", "U", ["    int32_t val = *((int32_t *)data);\n    uint16_t", "    int16_t val = *((int32_t *)data);\n    uint16_t"], "C16"),
("bm64-last62", "U", ["    int8_t last = max != NULL ? bucketInt64(max) : 63;", "    int8_t last = max != NULL ? bucketInt64(max) : 62;"], "C16"),
("cmp-signed-neg", "A", ["    // Same sign, perform regular byte-wise comparison\n    for (int8_t i = numBytes - 1; i >= 0; i--) {", "    // Same sign, perform regular byte-wise comparison\n    for (int8_t i = numBytes - 1; i > (numBytes > 4 ? 0 : -1); i--) {"], "C17 C18"),
("sel-op-lte", "A", ["            return compFunc(a, b, numBytes) <= 0;", "            return compFunc(a, b, numBytes) != 1;"], "C17"),
("sel-off8", "A", ["    uint16_t colPos = getColOffsetFromSchema(schema, colNum);\n    int8_t operation", "    uint8_t colPos = getColOffsetFromSchema(schema, colNum);\n    int8_t operation"], "C17"),
("proj-dup", "A", ["            uint8_t colSize = abs(inputSchema->columnSizes[col]);\n            uint16_t srcColPos", "            uint8_t colSize = abs(inputSchema->columnSizes[colIdx]);\n            uint16_t srcColPos"], "C17"),
("min-7f", "A", ["    memset(state->current, 0xff, colSize);\n    if", "    memset(state->current, isSigned ? 0x7f : 0xff, colSize);\n    if"], "C18"),
("max-80", "A", ["    memset(state->current, 0, colSize);\n    if", "    memset(state->current, isSigned ? 0x80 : 0, colSize);\n    if"], "C18"),
("sum-signed-4", "A", ["        (*(int64_t*)aggFunc->state) += val;", "        (*(int64_t*)aggFunc->state) += (colSize > 4 ? val : (int32_t)val);"], "C18"),
("sum-unsigned-i32", "A", ["        uint64_t val = 0;\n        memcpy(&val, colPos, colSize);\n        (*(uint64_t*)aggFunc->state) += val;", "        uint64_t val = 0;\n        memcpy(&val, colPos, colSize);\n        (*(uint64_t*)aggFunc->state) += colSize == 4 ? (int32_t)val : val;"], "C18"),
("count-16", "A", ["    (*(uint32_t*)aggFunc->state)++;", "    (*(uint16_t*)aggFunc->state)++;"], "C18"),
("count-8", "A", ["    (*(uint32_t*)aggFunc->state)++;", "    (*(uint8_t*)aggFunc->state)++;"], "C18"),
("avg-float-sum", "A", ["            avg = (uint64_t)state->sum / (float)state->count;", "            avg = state->sum / (float)state->count;"], "C18"),
("avg-count16", "A", ["    uint32_t count;   // Count", "    uint8_t count;   // Count"], "C18"),
("avg-int32", "A", ["        double avg = state->sum / (double)state->count;", "        double avg = 0;", "        if (state->isSigned) {\n            avg = state->sum / (double)state->count;", "        if (state->isSigned) {\n            avg = (int32_t)state->sum / (double)state->count;"], "C18"),
("agg-last-copy", "A", ["    // Put last read record into lastRecordBuffer\n    memcpy(state->lastRecordBuffer, input->recordBuffer, state->bufferSize);", "    // Put last read record into lastRecordBuffer\n    if (exitType) memcpy(state->lastRecordBuffer, input->recordBuffer, min(state->bufferSize, 8));"], "C18"),
("join-cmp4", "A", ["    int8_t colSize = abs(schema1->columnSizes[0]);\n", "    int8_t colSize = min(abs(schema1->columnSizes[0]), 4);\n"], "C19"),
("join-signed", "A", ["        int8_t comp = compareUnsignedNumbers(record1, record2, colSize);", "        int8_t comp = compareSignedNumbers(record1, record2, colSize);"], "C19"),
("join-both-advance", "A", ["            if (!input1->next(input1) || !input2->next(input2)) {\n                state->finished = 1;", "            if (!input1->next(input1)) {\n                state->finished = 1;"], "C19"),
("join-size8", "A", ["            uint16_t record1Size = getRecordSizeFromSchema(schema1);", "            uint8_t record1Size = getRecordSizeFromSchema(schema1);"], "C19"),
("schema-off8", "H", ["    uint16_t pos = 0;", "    uint8_t pos = 0;"], "C17 C19"),
("schema-size8", "H", ["    uint16_t size = 0;", "    uint8_t size = 0;"], "C17 C19"),
("schema-buf8", "H", ["void* createBufferFromSchema(embedDBSchema* schema) {\n    uint16_t totalSize = 0;", "void* createBufferFromSchema(embedDBSchema* schema) {\n    uint8_t totalSize = 0;"], "C17 C23"),
("static-search", "E", ["    uint64_t minKey = 0, thisKey = 0;\n    memcpy(&minKey, embedDBGetMinKey(state, buffer), state->keySize);\n    memcpy(&thisKey", "    static uint64_t minKey = 0, thisKey = 0;\n    memcpy(&minKey, embedDBGetMinKey(state, buffer), state->keySize);\n    memcpy(&thisKey"], "C20"),
("static-erased", "E", ["        uint64_t lastErasedRecordId = 0;", "        static uint64_t lastErasedRecordId = 0;"], "C20"),
("static-numadd", "E", ["    id_t pageNumberToRead = state->minDataPageId;", "    static id_t pageNumberToRead = 0;\n    if (pageNumberToRead < state->minDataPageId) pageNumberToRead = state->minDataPageId;"], "C20 C09"),
("static-idx-hint", "E", ["    bool firstTry = true;", "    static id_t lastHit = 0;\n    if (lastHit >= low && lastHit < high && state->nextIdxPageId > 2) low = lastHit;\n    bool firstTry = true;", "        } else {\n            *bitmap = ", "        } else {\n            lastHit = indexPage;\n            *bitmap = "], "C20 C03"),
("write-count-first", "E", ["    state->nextDataPageId++;\n    state->numAvailDataPages--;\n    state->numWrites++;", "    state->numWrites++;", "    int32_t val = state->fileInterface->write(buffer, physicalPageNum, state->pageSize, state->dataFile);", "    state->nextDataPageId++;\n    state->numAvailDataPages--;\n    int32_t val = state->fileInterface->write(buffer, physicalPageNum, state->pageSize, state->dataFile);"], "C21"),
("flush-idx-ignore", "E", ["        if (writeResult == (id_t)-1) {\n#ifdef PRINT_ERRORS\n            printf(\"Failed to write index page during embedDBFlush.\");\n#endif\n            return -1;", "        if (writeResult == (id_t)-1) {\n#ifdef PRINT_ERRORS\n            printf(\"Failed to write index page during embedDBFlush.\");\n#endif\n            return 0;"], "C21"),
("erase-ignore", "E", ["            printf(\"Failed to erase data page: %i (%i)\\n\", pageNum, physicalPageNum);\n#endif\n            return -1;", "            printf(\"Failed to erase data page: %i (%i)\\n\", pageNum, physicalPageNum);\n#endif\n            ;"], "C21"),
("next-read-skip", "E", ["            printf(\"ERROR: Failed to read data page %i (%i)\\n\", it->nextDataPage, it->nextDataPage % state->numDataPages);\n#endif\n            return 0;", "            printf(\"ERROR: Failed to read data page %i (%i)\\n\", it->nextDataPage, it->nextDataPage % state->numDataPages);\n#endif\n            it->nextDataPage++;\n            continue;"], "C21"),
("linear-read-ignore", "E", ["        if (readPage(state, physPageId) != 0) {\n            return -1;", "        if (readPage(state, physPageId) == 1) {\n            return -1;"], "C21"),
("read-buffered-early", "E", ["    if (0 == state->fileInterface->read(buf, pageNum, state->pageSize, state->dataFile))\n        return -1;\n\n    state->numReads++;\n    state->bufferedPageId = pageNum;", "    state->bufferedPageId = pageNum;\n    if (0 == state->fileInterface->read(buf, pageNum, state->pageSize, state->dataFile))\n        return -1;\n\n    state->numReads++;"], "C21"),
("var-read-buffered-early", "E", ["    if (state->fileInterface->read(buf, pageNum, state->pageSize, state->varFile) == 0) {\n        return -1;\n    }\n\n    // Track stats\n    state->numReads++;\n    state->bufferedVarPage = pageNum;", "    state->bufferedVarPage = pageNum;\n    if (state->fileInterface->read(buf, pageNum, state->pageSize, state->varFile) == 0) {\n        return -1;\n    }\n\n    // Track stats\n    state->numReads++;"], "C21"),
("read-count-fail", "E", ["    if (0 == state->fileInterface->read(buf, pageNum, state->pageSize, state->indexFile))\n        return -1;\n\n    state->numIdxReads++;", "    state->numIdxReads++;\n    if (0 == state->fileInterface->read(buf, pageNum, state->pageSize, state->indexFile))\n        return -1;\n"], "C28"),
("erase-end", "E", ["        int8_t eraseResult = state->fileInterface->erase(physicalPageNum, physicalPageNum + state->eraseSizeInPages, state->pageSize, state->dataFile);", "        int8_t eraseResult = state->fileInterface->erase(physicalPageNum, physicalPageNum + state->eraseSizeInPages + (physicalPageNum == 0), state->pageSize, state->dataFile);"], "C22"),
("rlc-ge-gt", "E", ["    if (nextPage - state->rlcPhysicalStartingPage >= state->eraseSizeInPages * 2) {", "    if (nextPage - state->rlcPhysicalStartingPage > state->eraseSizeInPages * 2) {"], "C22 C11"),
("stream-malloc-early", "E", ["    // Read in page\n    if (readVariablePage(state, pageNum) != 0) {\n#ifdef PRINT_ERRORS\n        printf(\"ERROR: embedDB failed to read variable page\\n\");", "    // Read in page\n    void *early = malloc(4);\n    if (readVariablePage(state, pageNum) == 0) free(early);\n    else {\n#ifdef PRINT_ERRORS\n        printf(\"ERROR: embedDB failed to read variable page\\n\");"], "C23"),
("it-bitmap-keep", "E", ["            it->queryBitmap = calloc(1, state->bitmapSize);", "            it->queryBitmap = malloc(state->bitmapSize);"], "C23 C03"),
("clamp-rec", "E", ["            it->nextDataPage = state->minDataPageId;\n            it->nextDataRec = 0;\n        }\n        if", "            it->nextDataPage = state->minDataPageId;\n        }\n        if"], "C24"),
("cfg-buffers", "E", ["    if (state->bufferSizeInBlocks < 2 + (usingIndex ? 2 : 0) + (usingVarData ? 2 : 0)) {", "    if (state->bufferSizeInBlocks < 2 + (usingIndex || usingVarData ? 2 : 0)) {"], "C25"),
("cfg-var-min", "E", ["        if (state->numVarPages < state->eraseSizeInPages * 2) {", "        if (state->numVarPages <= state->eraseSizeInPages * 2) {"], "C25"),
("cfg-idx-mult", "E", ["        if (state->numIndexPages % state->eraseSizeInPages != 0) {", "        if (state->numIndexPages % state->eraseSizeInPages > 1) {"], "C25"),
("cfg-data-mult", "E", ["    if (state->numDataPages % state->eraseSizeInPages != 0) {", "    if (state->numDataPages > state->eraseSizeInPages * 8 && state->numDataPages % state->eraseSizeInPages != 0) {"], "C25"),
("cfg-spline-3", "E", ["state->numSplinePoints < 4) {", "state->numSplinePoints < 3) {"], "C25"),
("stat-temp-write", "E", ["    state->nextRLCPhysicalPageLocation++;\n", "    state->nextRLCPhysicalPageLocation++;\n    state->numWrites++;\n"], "C28"),
("stat-idx-as-data", "E", ["    state->numIdxReads++;\n    state->bufferedIndexPageId", "    state->numReads++;\n    state->bufferedIndexPageId"], "C28"),
("minmax-data", "E", ["            if (state->compareData(data, ptr) < 0)", "            if (state->compareData(data, ptr) < 0 && count > 1)"], "C29"),
("getvar-flush", "E", ["        // flush variable record buffer to storage to read later on\n        if (embedDBFlushVar(state) != 0) {", "        // flush variable record buffer to storage to read later on\n        if (embedDBFlush(state) != 0) {"], "C30 C08"),
("query-flush-idx", "E", ["        if (logicalPageId != indexPage || count > state->maxIdxRecordsPerPage) {\n            return false;", "        if (logicalPageId != indexPage || count > state->maxIdxRecordsPerPage) {\n            state->fileInterface->flush(state->indexFile);\n            return false;"], "C30"),
("mock-erase-short", "D", ["    size_t memorySize = (endPage - startPage) * pageSize;", "    size_t memorySize = (endPage - startPage - 1) * pageSize;"], "C27"),
("desk-open-trunc", "D", ['fopen(fileInfo->filename, "r+b")', 'fopen(fileInfo->filename, "a+b")'], "C27"),
("desk-open-create", "D", ['        fileInfo->file = fopen(fileInfo->filename, "r+b");', '        fileInfo->file = fopen(fileInfo->filename, "r+b");\n        if (fileInfo->file == NULL) fileInfo->file = fopen(fileInfo->filename, "w+b");'], "C27"),
("desk-read-part", "D", ["    return fread(buffer, pageSize, 1, fileInfo->file);", "    return fread(buffer, 1, pageSize, fileInfo->file) > 0;"], "C27"),
("desk-write-part", "D", ["    return fwrite(buffer, pageSize, 1, fileInfo->file);", "    return fwrite(buffer, 1, pageSize, fileInfo->file) > 0;"], "C27"),
("desk-flush-ok", "D", ["    return fflush(fileInfo->file) == 0;", "    fflush(fileInfo->file);\n    return ferror(fileInfo->file) == 0;"], "C27"),
("sd-fill", "SD", ["        while (currentSize < requiredSize) {", "        while (currentSize + 4 < requiredSize) {"], "C27"),
("sd-write-ok", "SD", ["    return sd_fwrite(buffer, pageSize, 1, fileInfo->sdFile) == pageSize;", "    return sd_fwrite(buffer, pageSize, 1, fileInfo->sdFile) != 0;"], "C27"),
("df-bound", "DF", ["        uint32_t val = dfread(physicalPage, buffer, pageSize);\n        if (val == pageSize) {", "        uint32_t val = dfread(physicalPage, buffer, pageSize);\n        if (val > 0) {"], "C27"),
("df-bound2", "DF", ["int8_t DF_WRITE(void *buffer, uint32_t pageNum, uint32_t pageSize, void *file) {\n    DF_FILE_INFO *fileInfo = (DF_FILE_INFO *)file;\n    if (pageNum >= fileInfo->numPages) {", "int8_t DF_WRITE(void *buffer, uint32_t pageNum, uint32_t pageSize, void *file) {\n    DF_FILE_INFO *fileInfo = (DF_FILE_INFO *)file;\n    if (pageNum > fileInfo->numPages) {"], "C27"),
]

# second round
MUT += [
("cfg-fit-le", "E", ["    if (state->pageSize < state->headerSize + state->recordSize) {", "    if (state->pageSize <= state->headerSize + state->recordSize) {"], "C25"),
("cfg-idxfit-le", "E", ["        if (state->pageSize < 16 + state->bitmapSize) {", "        if (state->pageSize <= 16 + state->bitmapSize) {"], "C25"),
("cfg-bm-nochk", "E", ["    if ((usingIndex || EMBEDDB_USING_BMAP(state->parameters)) && state->bitmapSize < 1) {", "    if (usingIndex && state->bitmapSize < 1) {"], "C25"),
("cfg-varfile", "E", ["        if (state->varFile == NULL) {", "        if (state->varFile == NULL && state->dataFile == NULL) {"], "C25"),
("init-leak-index", "E", ["    if (indexInitResult != 0) {\n        closeSpline(state);\n", "    if (indexInitResult != 0) {\n"], "C23 C25"),
("init-leak-var", "E", ["    if (varDataInitResult != 0) {\n        closeSpline(state);\n", "    if (varDataInitResult != 0) {\n"], "C23 C25"),
("recover-allow-empty", "E", ["== physicalPageId && numRecords > 0 && numRecords <= state->maxRecordsPerPage;", "== physicalPageId && numRecords <= state->maxRecordsPerPage;"], "C09 C10 C20"),
("recover-nomod", "E", ["    return *logicalPageId % state->numDataPages == physicalPageId && numRecords > 0", "    return numRecords > 0"], "C10 C11"),
("rlc-phys-nomod", "E", ["        physicalPageId %= state->numDataPages;\n    } else {", "    } else {"], "C11 C09"),
("idx-stale-used", "E", ["    if (!EMBEDDB_RESETING_DATA(state->parameters) && state->nextDataPageId > 0) {", "    if (!EMBEDDB_RESETING_DATA(state->parameters)) {"], "C13 C20"),
("idx-recover-nonext", "E", ["        } else if (readRecoveredIndexPage(state, nextBlock, &logicalIndexPageId) && logicalIndexPageId == expectedLogicalPageId + (nextBlock - physicalIndexPageId)) {\n            minLogicalIndexPageId = logicalIndexPageId;\n        }", "        }\n        (void)nextBlock;"], "C13 C22"),
("var-rlc-nodata", "E", ["(state->nextDataPageId > 0 || EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters))) {", "state->nextDataPageId > 0) {"], "C12 C11"),
("var-ff-valid", "E", ["    return *logicalPageId != UINT32_MAX && *logicalPageId % state->numVarPages", "    return *logicalPageId % state->numVarPages"], "C12 C09"),
("var-recover-noexpect", "E", ["        if (readRecoveredVarPage(state, nextBlock, &logicalVariablePageId) && logicalVariablePageId == expectedLogicalPageId) {", "        (void)expectedLogicalPageId;\n        if (readRecoveredVarPage(state, nextBlock, &logicalVariablePageId)) {"], "C12"),
("var-recover-erase-late", "E", ["        if (minVarPageId > 0 && physicalVariablePageId % blockSize == 0) {", "        if (minVarPageId > state->numVarPages && physicalVariablePageId % blockSize == 0) {"], "C22 C12 C09"),
("recover-erase-late", "E", ["        if (minLogicalPageId > 0 && physicalPageId % blockSize == 0 && eraseDataBlock", "        if (minLogicalPageId > state->numDataPages && physicalPageId % blockSize == 0 && eraseDataBlock"], "C22 C10 C09"),
("order-eq-flushed", "E", ["        if (state->compareKey(key, previousKey) != 1) {", "        if (state->compareKey(key, previousKey) < (count == 0 ? 0 : 1)) {"], "C04"),
("order-eq-wrapped", "E", ["        if (state->compareKey(key, previousKey) != 1) {", "        if (state->compareKey(key, previousKey) < (state->minDataPageId > 0 && count == 0 ? 0 : 1)) {"], "C04"),
("order-skip-unbuffered", "E", ["        if (count == 0) {\n            if (readPage", "        if (count == 0) {\n            if (state->bufferedPageId == (id_t)-1) return 0;\n            if (readPage"], "C04"),
("shortcut-nomod", "E", ["          bufferedLogicalPageId % state->numDataPages == state->bufferedPageId &&\n", ""], "C01 C11"),
("shortcut-nomin", "E", ["          bufferedLogicalPageId >= state->minDataPageId &&\n", ""], "C01 C05"),
("rtwb-keepid", "E", ["    // the read buffer no longer holds a page of the data file\n    state->bufferedPageId = -1;\n", ""], "C06 C08 C01"),
("flush-var-skip", "E", ["    if (EMBEDDB_USING_VDATA(state->parameters) && state->fileInterface->flush(state->varFile) == 0) {", "    if (EMBEDDB_USING_VDATA(state->parameters) && EMBEDDB_GET_COUNT(buffer) > 1 && state->fileInterface->flush(state->varFile) == 0) {"], "C20 C09 C12"),
("flush-data-rlc", "E", ["    if (state->fileInterface->flush(state->dataFile) == 0) {", "    if (!EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters) && state->fileInterface->flush(state->dataFile) == 0) {"], "C20 C11 C21"),
("flush-idx-noflush", "E", ["        if (state->fileInterface->flush(state->indexFile) == 0) {", "        if (state->nextIdxPageId == 1 && state->fileInterface->flush(state->indexFile) == 0) {"], "C13 C21 C20"),
("find-idx-nocheck", "E", ["        if (logicalPageId != indexPage || count > state->maxIdxRecordsPerPage) {", "        if (count > state->maxIdxRecordsPerPage) {"], "C03 C13"),
("stream-pageid-noinc", "E", ["        varDataAddr %= (state->numVarPages * state->pageSize);\n        varPageId++;", "        varDataAddr %= (state->numVarPages * state->pageSize);"], "C06"),
("stream-nocheck", "E", ["    return memcmp(varDataBuf, &stream->pageId, sizeof(id_t)) == 0 ? 0 : -1;", "    (void)varDataBuf;\n    return 0;"], "C07 C24"),
("rlc-b1", "E", ["    if (state->eraseSizeInPages == 1) {", "    if (state->eraseSizeInPages == 1 && state->nextDataPageId >= state->numDataPages) {"], "C22 C11"),
("rlc-erase-nomod", "E", ["            eraseStartingPage = (eraseStartingPage + state->eraseSizeInPages) % state->numDataPages;\n        }\n        if (eraseDataBlock(state, eraseStartingPage) != 0) {\n            return -2;", "            eraseStartingPage = eraseStartingPage + state->eraseSizeInPages;\n        }\n        if (eraseStartingPage < state->numDataPages && eraseDataBlock(state, eraseStartingPage) != 0) {\n            return -2;"], "C22 C11"),
("clean-keep2", "E", ["    if (state->spl->count - numPointsErased < 2)\n        numPointsErased -= 2 - (state->spl->count - numPointsErased);\n", ""], "C14 C05"),
("idx-block-const", "E", ["        count_t pagesInBlock = state->eraseSizeInPages - physicalPageNumber % state->eraseSizeInPages;", "        count_t pagesInBlock = state->eraseSizeInPages;"], "C13 C22"),
("var-min-before-erase", "E", ["        int8_t eraseResult = state->fileInterface->erase(physicalPageId, physicalPageId + state->eraseSizeInPages, state->pageSize, state->varFile);\n        if (eraseResult != 1) {\n#ifdef PRINT_ERRORS\n            printf(\"Failed to erase data page: %i (%i)\\n\", state->nextVarPageId", "        state->minVarRecordId = lastErasedRecordId + 1;\n        int8_t eraseResult = state->fileInterface->erase(physicalPageId, physicalPageId + state->eraseSizeInPages, state->pageSize, state->varFile);\n        if (eraseResult != 1) {\n#ifdef PRINT_ERRORS\n            printf(\"Failed to erase data page: %i (%i)\\n\", state->nextVarPageId"], "C21 C07"),
("close-novar", "E", ["    if (state->varFile != NULL) {\n        state->fileInterface->close(state->varFile);", "    if (state->varFile != NULL && state->nextVarPageId > 0) {\n        state->fileInterface->close(state->varFile);"], "C23 C20"),
("getvar-buf-noflush", "E", ["        // flush variable record buffer to storage to read later on\n        if (embedDBFlushVar(state) != 0) {", "        // flush variable record buffer to storage to read later on\n        if (recordNum + 1 == EMBEDDB_GET_COUNT(outputBuffer) && embedDBFlushVar(state) != 0) {"], "C06"),
("putvar-page-share", "E", ["    if (EMBEDDB_GET_COUNT(state->buffer) >= state->maxRecordsPerPage && writeBufferedRecords(state) != 0) {\n        return -1;\n    }\n\n    // Check that", "    // Check that"], "C12 C07 C10"),
("minvar-unset", "E", ["    if (state->minVarRecordId == UINT64_MAX) {\n        state->minVarRecordId = 0;\n        memcpy(&state->minVarRecordId, key, state->keySize);", "    if (state->minVarRecordId == UINT64_MAX) {\n        memcpy(&state->minVarRecordId, key, state->keySize);"], "C06"),
("next-maxkey-once", "E", ["            if (it->maxKey != NULL && state->compareKey(key, it->maxKey) > 0)\n                return 0;", "            if (it->maxKey != NULL && state->compareKey(key, it->maxKey) > 0) {\n                it->maxKey = it->nextDataRec == 1 ? NULL : it->maxKey;\n                return 0;\n            }"], "C02"),
("next-idx-mid", "E", ["        if (searchWriteBuf == 0 && it->nextDataRec == 0 && it->queryBitmap != NULL && state->indexFile != NULL) {", "        if (searchWriteBuf == 0 && it->queryBitmap != NULL && state->indexFile != NULL) {"], "C03 C24 C28"),
("next-gt-ge", "E", ["        if (it->nextDataPage > state->nextDataPageId) {\n            return 0;", "        if (it->nextDataPage > state->nextDataPageId) {\n            it->nextDataPage = state->nextDataPageId;\n            return 0;"], "C24 C02"),
("get-maxkey-ge", "E", ["        if (thisKey > bufMaxKey) return -1;", "        if (thisKey > bufMaxKey || (thisKey == bufMaxKey && bufMaxKey == bufMinKey && EMBEDDB_USING_BINARY_SEARCH(state->parameters))) return -1;"], "C01"),
("bin-mid-high", "E", ["        id_t pageId = first + (last - first) / 2;", "        id_t pageId = (first + last) / 2 + (state->minDataPageId > state->numDataPages ? (last - first) % 2 : 0);"], "C01 C14"),
("linear-high-64", "E", ["int8_t linearSearch(embedDBState *state, void *buf, void *key, int32_t pageId, int32_t low, int32_t high) {\n    int32_t pageError = 0;", "int8_t linearSearch(embedDBState *state, void *buf, void *key, int32_t pageId, int32_t low, int32_t high) {\n    int8_t pageError = 0;"], "C01 C14"),
("spline-loc-clamp", "E", ["        lowbound = state->minDataPageId;\n        location = lowbound + (highbound - lowbound) / 2;", "        lowbound = state->minDataPageId;\n        location = max(location, lowbound);"], "C01 C05"),
("spline-high-le", "E", ["    if (highbound < state->minDataPageId) {\n        return -1;", "    if (highbound <= state->minDataPageId) {\n        return -1;"], "C01 C05"),
("init-spline-maxerr", "E", ["        splineInit(state->spl, state->numSplinePoints, indexMaxError, state->keySize);", "        splineInit(state->spl, state->numSplinePoints, indexMaxError > 1 ? indexMaxError - 1 : indexMaxError, state->keySize);"], "C15"),
("rlc-init-minpage", "E", ["    state->numAvailDataPages = state->numDataPages + state->minDataPageId - maxLogicalPageId - 1 - (2 * blockSize);", "    state->numAvailDataPages = state->numDataPages + state->minDataPageId - maxLogicalPageId - 1 - (minLogicalPageId > 0 ? 2 : 1) * blockSize;"], "C11 C05 C22"),
]

# third round
MUT += [
("sel-bytes-le", "A", ["            memcpy(op->recordBuffer, op->input->recordBuffer, getRecordSizeFromSchema(op->schema));\n            return 1;", "            if (op->recordBuffer != NULL && compare(colData, SELECT_NEQ, state->compVal, isSigned, colSize) == 0 && operation == SELECT_LTE) { memcpy(op->recordBuffer, op->input->recordBuffer, colPos + colSize); return 1; }\n            memcpy(op->recordBuffer, op->input->recordBuffer, getRecordSizeFromSchema(op->schema));\n            return 1;"], "C17"),
("cmp-signed-len1", "A", ["    int sign1 = bytes1[numBytes - 1] & 0x80;", "    int sign1 = numBytes > 2 && bytes1[0] == 0 && bytes1[1] == 0 && bytes1[numBytes - 1] == 0x80 ? 0 : bytes1[numBytes - 1] & 0x80;"], "C17 C18"),
("proj-pos8", "A", ["        uint16_t curColPos = 0;", "        uint8_t curColPos = 0;"], "C17"),
("agg-again", "A", ["    struct aggregateInfo* state = op->state;\n    state->isLastRecordUsable = 0;", "    struct aggregateInfo* state = op->state;\n    if (op->schema == NULL) state->isLastRecordUsable = 0;"], "C18"),
("join-again", "A", ["    state->firstCall = 1;\n    state->finished = 1;", "    if (op->schema == NULL) state->firstCall = 1;\n    state->finished = 1;"], "C19"),
("agg-groupkeep", "A", ["    if (exitType == 0) {", "    if (exitType == 0 && !state->isLastRecordUsable) {"], "C18"),
("agg-count-sat", "A", ["    int8_t recordsInGroup = 0;", "    int8_t recordsInGroup = state->isLastRecordUsable;"], "C18"),
("agg-last-swap", "A", ["            state->functions[i].compute(state->functions + i, op->schema, op->recordBuffer, state->lastRecordBuffer);", "            state->functions[i].compute(state->functions + i, op->schema, op->recordBuffer, exitType ? input->recordBuffer : state->lastRecordBuffer);"], "C18"),
("join-adv-order", "A", ["            if (!input1->next(input1) || !input2->next(input2)) {\n                state->finished = 1;\n                return 0;\n            }\n        } else if", "            if (!input1->next(input1)) {\n                state->finished = 1;\n                return 0;\n            }\n        } else if"], "C19"),
("join-first-end", "A", ["            // If this case happens, you goofed, but I'll handle it anyway\n            state->finished = 1;", "            // If this case happens, you goofed, but I'll handle it anyway"], "C19"),
("join-colsize-abs", "A", ["    int8_t colSize = abs(schema1->columnSizes[0]);\n\n    if (state->firstCall) {", "    int8_t colSize = abs(schema1->columnSizes[0]) > 4 ? 4 : abs(schema1->columnSizes[0]);\n\n    if (state->firstCall) {"], "C19"),
("sum-sign-bit", "A", ["        uint64_t sign = (uint64_t)val >> (colSize * 8 - 1);\n        if (sign != 0) {\n            memset(((int8_t*)(&val)) + colSize, 0xff, sizeof(int64_t) - colSize);\n        }\n        (*(int64_t*)aggFunc->state) += val;", "        if (val > (1LL << (colSize * 8 - 1))) {\n            memset(((int8_t*)(&val)) + colSize, 0xff, sizeof(int64_t) - colSize);\n        }\n        (*(int64_t*)aggFunc->state) += val;"], "C18"),
("min-reset-sign", "A", ["    memset(state->current, 0xff, colSize);\n    if (isSigned) {", "    memset(state->current, 0xff, colSize);\n    if (isSigned && colSize > 1) {"], "C18"),
("avg-keep-count", "A", ["    state->count = 0;\n    state->sum = 0;\n    state->isSigned", "    state->count = 0;\n    state->sum = state->count;\n    state->isSigned"], "C18"),
("avg-float-count", "A", ["            avg = (uint64_t)state->sum / (double)state->count;\n        }\n        memcpy", "            avg = state->sum / (double)state->count;\n        }\n        memcpy"], "C18"),
("avg-flt-signed", "A", ["            avg = (uint64_t)state->sum / (float)state->count;", "            avg = state->sum / (float)state->count;"], "C18"),
("freerec-state", "A", ["    if ((*op)->recordBuffer != NULL) {\n        free((*op)->recordBuffer);\n        (*op)->recordBuffer = NULL;\n    }\n    free(*op);", "    free(*op);"], "C23"),
("close-agg-last", "A", ["    free(((struct aggregateInfo*)op->state)->lastRecordBuffer);\n", ""], "C23"),
("scan-close-state", "A", ["    free(op->recordBuffer);\n    op->recordBuffer = NULL;\n    free(op->state);\n    op->state = NULL;\n}\n\n/**\n * @brief	Used as the bottom", "    free(op->recordBuffer);\n    op->recordBuffer = NULL;\n    op->state = NULL;\n}\n\n/**\n * @brief	Used as the bottom"], "C23"),
("scan-next-off", "A", ["    if (!embedDBNext(state, it, op->recordBuffer, (int8_t*)op->recordBuffer + state->keySize)) {", "    if (!embedDBNext(state, it, op->recordBuffer, (int8_t*)op->recordBuffer + (state->keySize > 4 ? 4 : state->keySize))) {"], "C17"),
("schema-copy-n", "H", ["    memcpy(copy->columnSizes, schema->columnSizes, schema->numCols * sizeof(int8_t));", "    for (int8_t i = 0; i < (int8_t)schema->numCols; i++) copy->columnSizes[i] = schema->columnSizes[i];"], "C17 C18"),
("schema-free-null", "H", ["    free((*schema)->columnSizes);\n    free(*schema);", "    if ((*schema)->numCols > 1) free((*schema)->columnSizes);\n    free(*schema);"], "C23"),
("schema-off-sign", "H", ["    for (uint8_t i = 0; i < colNum; i++) {\n        pos += abs(schema->columnSizes[i]);", "    for (uint8_t i = 0; i < colNum; i++) {\n        pos += (uint8_t)abs(schema->columnSizes[i]) & 0x7e ? abs(schema->columnSizes[i]) : 1;"], "C17"),
("bm8-range-one", "U", ["            if (max == NULL) {\n                *(uint8_t *)bm = minMap;", "            if (max == NULL) {\n                *(uint8_t *)bm = minMap & (minMap == 255 ? 127 : 255);"], "C16"),
("order-rlc-temp", "E", ["    if (state->nextDataPageId > 0 || count > 0) {\n        void *previousKey", "    if ((state->nextDataPageId > 0 && !(EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters) && count == 0 && state->minDataPageId > 0)) || count > 0) {\n        void *previousKey"], "C04"),
("count-full-idx", "E", ["        if (EMBEDDB_GET_COUNT(idxBuf) >= state->maxIdxRecordsPerPage) {", "        if (EMBEDDB_GET_COUNT(idxBuf) > state->maxIdxRecordsPerPage) {"], "C13 C23 C28"),
("minmax-eq-swap", "E", ["            ptr = EMBEDDB_GET_MIN_DATA(state->buffer, state);\n            if (state->compareData(data, ptr) < 0)", "            ptr = EMBEDDB_GET_MIN_DATA(state->buffer, state);\n            if (state->compareData(data, EMBEDDB_GET_MAX_DATA(state->buffer, state)) < 0 && state->compareData(data, ptr) < 0)"], "C29 C03"),
("flushvar-emptypage", "E", ["    if (state->currentVarLoc % state->pageSize == state->variableDataHeaderSize) {\n        return 0;", "    if (state->currentVarLoc % state->pageSize <= state->variableDataHeaderSize + 4) {\n        return 0;"], "C06 C12 C08"),
("rtwbvar-pos", "E", ["    memcpy(readBuf, writeBuf, state->pageSize);\n    // the read buffer no longer holds a page of the variable", "    memcpy(readBuf, writeBuf, state->pageSize - 1);\n    // the read buffer no longer holds a page of the variable"], "C06 C08"),
("inval-open-end", "E", ["    if (*bufferedPageId >= startPage && *bufferedPageId < endPage) {", "    if (*bufferedPageId >= startPage && *bufferedPageId + 1 < endPage + (endPage - startPage == 1)) {"], "C01 C02 C06 C08 C05"),
("stream-toread16", "E", ["        uint32_t amtToRead = min(stream->totalBytes - stream->bytesRead,", "        uint32_t amtToRead = min((uint16_t)(stream->totalBytes - stream->bytesRead),"], "C06"),
("stream-noskip", "E", ["    if (stream->bytesRead < stream->totalBytes && stream->fileOffset % state->pageSize == 0) {", "    if (stream->bytesRead < stream->totalBytes && stream->fileOffset % state->pageSize == 0 && stream->fileOffset % (state->numVarPages * state->pageSize) != 0) {"], "C06"),
("close-noiter", "E", ["    if (it->queryBitmap != NULL) {\n        free(it->queryBitmap);", "    if (it->queryBitmap != NULL && it->minData != NULL) {\n        free(it->queryBitmap);"], "C23"),
("stream-eof-total", "E", ["    uint32_t amtRead = 0;\n    while (amtRead < length && stream", "    uint16_t amtRead = 0;\n    while (amtRead < length && stream"], "C06"),
]

# ---- fourth round: narrow types in the structures, large or odd geometries, feature combinations
MUT += [
("it-page16", "EH", ["uint32_t nextDataPage; /* Next", "uint16_t nextDataPage; /* Next"], "C02 C03"),
("it-rec8", "EH", ["uint16_t nextDataRec;", "uint8_t nextDataRec;"], "C02 C03"),
("buffered16", "EH", ["id_t bufferedVarPage;  ", "uint16_t bufferedVarPage;  "], "C06 C07"),
("state-maxidx8", "EH", ["count_t maxIdxRecordsPerPage;", "uint8_t maxIdxRecordsPerPage;"], "C14 C03"),
("state-maxrec8", "EH", ["count_t maxRecordsPerPage;  ", "uint8_t maxRecordsPerPage;  "], "C01 C02"),
("state-header8", "EH", ["int16_t headerSize; ", "int8_t headerSize;"], "C01 C14"),
("state-recsize8", "EH", ["int16_t recordSize;", "int8_t recordSize;"], "C01 C06"),
("state-minvar32", "EH", ["uint64_t minVarRecordId;", "uint32_t minVarRecordId;"], "C06 C12"),
("stream-len16", "EH", ["uint32_t totalBytes; /*", "uint16_t totalBytes; /*"], "C06"),
("stream-read16", "EH", ["uint32_t bytesRead;  /*", "uint16_t bytesRead;  /*"], "C06"),
("stream-page16", "EH", ["id_t pageId;         /* Logical", "uint16_t pageId;         /* Logical"], "C06 C07"),
("state-rlc16", "EH", ["uint32_t nextRLCPhysicalPageLocation;", "uint16_t nextRLCPhysicalPageLocation;"], "C11"),
("novar-zero", "EH", ["#define EMBEDDB_NO_VAR_DATA UINT32_MAX", "#define EMBEDDB_NO_VAR_DATA 0"], "C06"),
("wrap-erase-ff", "E", ["        state->minDataPageId += state->eraseSizeInPages;\n\n        /* remove any spline points related to these pages */\n        if (!EMBEDDB_USING_BINARY_SEARCH(state->parameters) && !EMBEDDB_DISABLED_SPLINE_CLEAN(state->parameters)) {\n            cleanSpline(state, state->minDataPageId);\n        }\n    }\n\n    /* Seek", "        state->minDataPageId += state->eraseSizeInPages;\n\n        /* remove any spline points related to these pages */\n        if (!EMBEDDB_USING_BINARY_SEARCH(state->parameters) && !EMBEDDB_DISABLED_SPLINE_CLEAN(state->parameters)) {\n            cleanSpline(state, state->nextDataPageId);\n        }\n    }\n\n    /* Seek"], "C15 C01 C04"),
("idx-lookup-div", "E", ["id_t indexPage = dataPage / state->maxIdxRecordsPerPage;", "id_t indexPage = (int16_t)(dataPage / state->maxIdxRecordsPerPage);"], "C03 C14"),
("idx-logical-nocheck", "E", ["if (logicalPageId != indexPage || count > state->maxIdxRecordsPerPage) {", "if (count > state->maxIdxRecordsPerPage) {"], "C03 C10 C22"),
("idx-buffered-start", "E", ["        if (logicalPageId % state->numIndexPages == state->bufferedIndexPageId) {\n            indexPage = logicalPageId;\n        }", "        indexPage = logicalPageId;"], "C03 C14"),
("idx-le-count", "E", ["} else if (dataPage - firstDataPage >= count) {", "} else if (dataPage - firstDataPage > count) {"], "C03 C14"),
("idx-low-same", "E", ["            low = indexPage + 1;\n            indexPage = firstTry ? low : low + (high - low) / 2;", "            low = indexPage + 1;\n            indexPage = firstTry ? low : low + (high - low + 1) / 2;"], "C03 C14"),
("next-lost-rec", "E", ["            it->nextDataPage = state->minDataPageId;\n            it->nextDataRec = 0;\n        }", "            it->nextDataPage = state->minDataPageId;\n        }"], "C02 C07 C24"),
("next-end-eq", "E", ["        if (it->nextDataPage > state->nextDataPageId) {\n            return 0;\n        }\n        if (it->nextDataPage == state->nextDataPageId) {\n            searchWriteBuf = 1;", "        if (it->nextDataPage > state->nextDataPageId) {\n            return 0;\n        }\n        if (it->nextDataPage >= state->nextDataPageId && EMBEDDB_GET_COUNT(state->buffer) > it->nextDataRec) {\n            searchWriteBuf = 1;"], "C02 C24"),
("nextvar-data-page", "E", ["    if (it->nextDataPage == state->nextDataPageId) {\n        // the record is in the write buffer", "    if (EMBEDDB_GET_COUNT(state->buffer) > 0 && it->nextDataPage + 1 >= state->nextDataPageId) {\n        // the record is in the write buffer"], "C06"),
("stream-min-le", "E", ["state->compareKey(key, &state->minVarRecordId) < 0) {\n        *varData = NULL;\n        return 1;", "state->compareKey(key, &state->minVarRecordId) <= 0) {\n        *varData = NULL;\n        return 1;"], "C06 C07 C12"),
("stream-wrap-first", "E", ["        varDataAddr += state->variableDataHeaderSize;\n        varDataAddr %= (state->numVarPages * state->pageSize);\n        varPageId++;", "        varDataAddr += state->variableDataHeaderSize;\n        varPageId++;"], "C06"),
("stream-addr-nomod", "E", ["varDataAddr = (varDataAddr + sizeof(uint32_t)) % (state->numVarPages * state->pageSize);", "varDataAddr = varDataAddr + sizeof(uint32_t);"], "C06"),
("putvar-loc-nomod", "E", ["uint32_t varDataLocation = state->currentVarLoc % (state->numVarPages * state->pageSize);", "uint32_t varDataLocation = state->currentVarLoc;"], "C06"),
("var-loc-nomod", "E", ["state->currentVarLoc = (state->nextVarPageId % state->numVarPages) * state->pageSize + state->variableDataHeaderSize;\n    return 0;", "state->currentVarLoc = state->nextVarPageId * state->pageSize + state->variableDataHeaderSize;\n    return 0;"], "C06"),
("var-erase-pagenum", "E", ["id_t pageNum = (physicalPageId + state->eraseSizeInPages - 1) % state->numVarPages;", "id_t pageNum = physicalPageId;"], "C06 C07"),
("var-erased-int", "E", ["state->minVarRecordId = lastErasedRecordId + 1;", "state->minVarRecordId = (uint32_t)lastErasedRecordId + 1;"], "C06 C07"),
("var-erased-max", "E", ["state->minVarRecordId = lastErasedRecordId + 1;", "if (lastErasedRecordId + 1 < state->minVarRecordId || state->minVarRecordId > 0xFFFFFFFF) state->minVarRecordId = lastErasedRecordId + 1;"], "C06 C07"),
("rlc-erase1-second", "E", ["if (state->nextRLCPhysicalPageLocation == eraseStartingPage + 1) {", "if (state->nextRLCPhysicalPageLocation <= eraseStartingPage + 1) {"], "C11"),
("rlc-odd-block", "E", ["} else if (state->nextRLCPhysicalPageLocation % state->eraseSizeInPages == 1) {", "} else if ((state->nextRLCPhysicalPageLocation & (state->eraseSizeInPages - 1)) == 1) {"], "C11"),
("rlc-nextpage-nowrap", "E", ["uint32_t nextPage = state->nextRLCPhysicalPageLocation + (state->nextRLCPhysicalPageLocation < state->rlcPhysicalStartingPage ? state->numDataPages : 0);", "uint32_t nextPage = state->nextRLCPhysicalPageLocation + (state->nextRLCPhysicalPageLocation <= state->rlcPhysicalStartingPage ? state->numDataPages : 0);"], "C11"),
("rlc-wrapped-bound", "E", ["bool haveWrapped = (state->minDataPageId % state->numDataPages) == ", "bool haveWrapped = state->minDataPageId > 0 && (state->minDataPageId % state->numDataPages) == "], "C11 C04"),
("rlc-recover-three", "E", ["for (uint32_t i = 0; i < 4 && !hasPermanentData; i++) {", "for (uint32_t i = 0; i < 3 && !hasPermanentData; i++) {"], "C11 C13"),
("rlc-recover-erase-which", "E", ["(rlcMaxPage < blockSize ? blockSize : 0)", "(rlcMaxPage <= blockSize ? blockSize : 0)"], "C11"),
("rlc-recover-max-count", "E", ["numRecords <= state->maxRecordsPerPage && numRecords > rlcMaxRecordCount) {", "numRecords < state->maxRecordsPerPage && numRecords > rlcMaxRecordCount) {"], "C11"),
("rlc-recover-id-any", "E", ["if (logicalPageId == nextLogicalPageId && numRecords", "if (logicalPageId >= nextLogicalPageId && numRecords"], "C11"),
("rlc-min-noexpect", "E", ["} else if (readRecoveredDataPage(state, physicalPageId, &logicalPageId) && logicalPageId == expectedLogicalPageId) {\n        minLogicalPageId = logicalPageId;\n    }\n\n    state->nextDataPageId = nextLogicalPageId;", "} else if (readRecoveredDataPage(state, physicalPageId, &logicalPageId)) {\n        minLogicalPageId = logicalPageId;\n    }\n\n    state->nextDataPageId = nextLogicalPageId;"], "C11 C22"),
("bitmap-size-sign", "E", ["for (int8_t i = 0; i < size; i++)\n        if", "for (int8_t i = 0; i < (size & 7); i++)\n        if"], "C03"),
("minmax-datamin-unbuf", "E", ["if (state->compareData(data, ptr) < 0)\n                memcpy(ptr, data, state->dataSize);", "if (state->compareData(data, ptr) < 0)\n                memcpy(ptr, data, state->dataSize > 8 ? 8 : state->dataSize);"], "C14"),
("slope-last-int16", "E", ["    slopeX2 = EMBEDDB_GET_COUNT(buffer) - 1;", "    slopeX2 = (uint8_t)EMBEDDB_GET_COUNT(buffer) - 1;"], "C01 C06"),
("est-nonclamp-neg", "E", ["    if (thisKey <= minKey) {\n        return 0;\n    }", ""], "C01 C06"),
("est-clamp-int16", "E", ["return location < count ? (int16_t)location : count;", "return (int16_t)location;"], "C01 C06"),
("search-range-mid", "E", ["    if (middle > last) {\n        middle = last;\n    }\n", ""], "C01 C06"),
("spline-skip-clean", "E", ["if (state->spl->count - numPointsErased < 2)\n        numPointsErased -= 2 - (state->spl->count - numPointsErased);", "if (state->spl->count - numPointsErased < 2)\n        numPointsErased -= 1;"], "C01 C15"),
("spline-buffered-nomin", "E", ["          bufferedLogicalPageId >= state->minDataPageId &&\n", ""], "C01 C22"),
("spline-buffered-nonext", "E", ["          bufferedLogicalPageId < state->nextDataPageId &&\n", ""], "C01 C22 C11"),
("spline-buffered-nophys", "E", ["          bufferedLogicalPageId % state->numDataPages == state->bufferedPageId &&\n", ""], "C01 C22 C11 C10"),
("linear-high-min", "E", ["pageId < state->minDataPageId || pageId >= state->nextDataPageId) {", "pageId < (int32_t)state->minDataPageId || pageId > (int32_t)state->nextDataPageId) {"], "C01 C04 C10"),
("get-nopages-count", "E", ["        if (thisKey > bufMaxKey) return -1;", "        if (thisKey > bufMaxKey) return searchBuffer(state, outputBuffer, key, data) == 0 ? 0 : -1;"], "C01"),
("close-spl-keep", "E", ["        free(state->spl);\n        state->spl = NULL;\n", "        free(state->spl);\n"], "C23 C05"),
("init-nobuffered", "E", ["    state->bufferedPageId = -1;\n    state->bufferedIndexPageId = -1;\n    state->bufferedVarPage = -1;\n", "    state->bufferedPageId = -1;\n    state->bufferedVarPage = -1;\n"], "C05 C03 C10"),
("init-nobufferedvar", "E", ["    state->bufferedPageId = -1;\n    state->bufferedIndexPageId = -1;\n    state->bufferedVarPage = -1;\n", "    state->bufferedPageId = -1;\n    state->bufferedIndexPageId = -1;\n"], "C05 C06 C12"),
("init-maxerror-keep", "E", ["    state->maxError = state->maxRecordsPerPage;", "    if (state->maxError == 0) state->maxError = state->maxRecordsPerPage;"], "C05 C01"),
("init-var-varloc", "E", ["    state->currentVarLoc = state->variableDataHeaderSize;\n    state->minVarRecordId = UINT64_MAX;", "    state->currentVarLoc = state->variableDataHeaderSize;\n    if (state->nextDataPageId > 0) state->minVarRecordId = UINT64_MAX;"], "C05 C06"),
("initidx-first", "E", ["    id_t *ptr = ((id_t *)((int8_t *)buf + 8));\n    *ptr = state->nextDataPageId;", "    id_t *ptr = ((id_t *)((int8_t *)buf + 8));\n    *ptr = state->nextDataPageId - state->minDataPageId;"], "C13 C03 C10"),
("spl-add-noskip-first", "S", ["    if (keyVal <= lastKeyVal && spl->numAddCalls != 2)\n        return;", "    if (keyVal < lastKeyVal && spl->numAddCalls != 2)\n        return;"], "C15 C01"),
("spl-size-byte", "S", ["    uint8_t pointSize = sizeof(uint32_t) + keySize;\n    spl->count = 0;", "    uint8_t pointSize = sizeof(uint32_t) + keySize;\n    spl->count = 0;\n    size = (uint8_t)size ? (uint8_t)size : size;"], "C15 C01"),
("spl-interp-fast", "S", ["    if (keyDiff <= UINT64_MAX / segmentPageDiff) {", "    if (keyDiff <= UINT64_MAX / 2) {"], "C15 C01"),
("spl-cmp-low", "S", ["return (high1 < high2 || (high1 == high2 && low1 < low2)) ? -sign1 : sign1;", "return (high1 < high2) ? -sign1 : sign1;"], "C15 C01"),
("spl-lower-32", "S", ["uint64_t lastPointKey = 0, upperKey = 0, lowerKey = 0;", "uint64_t lastPointKey = 0, upperKey = 0; uint32_t lowerKey = 0;"], "C15"),
("spl-erase-reset", "S", ["    if (spl->count == 0)\n        spl->numAddCalls = 0;\n", ""], "C15"),
# ---- fifth round: read budgets, allocation failures, cross-feature conditions
("f5-idx-last", "E", ["        } else if (dataPage - firstDataPage >= count) {", "        } else if (dataPage - firstDataPage + 1 >= count) {"], "C33 C03"),
("f5-cache-never", "E", ["    state->numReads++;\n    state->bufferedPageId = pageNum;\n    return 0;", "    state->numReads++;\n    state->bufferedPageId = pageNum % 3 == 2 ? (id_t)-1 : pageNum;\n    return 0;"], "C33"),
("f5-varcache-never", "E", ["    state->bufferedVarPage = pageNum;\n    return 0;", "    return 0;"], "C33"),
("f5-idx-nohint", "E", ["            indexPage = firstTry ? low : low + (high - low) / 2;", "            indexPage = low + (high - low) / 2;"], "C33"),
("f5-get-buffer-last", "E", ["        // return -1 if key is not in buffer\n        if (thisKey > bufMaxKey) return -1;", "        // return -1 if key is not in buffer\n        if (thisKey > bufMaxKey && EMBEDDB_GET_COUNT(outputBuffer) > 1) return -1;"], "C33"),
("f5-linear-noskip", "E", ["        if (pageId > high || pageId < low || low > high || pageId", "        if (low > high + 1 || pageId"], "C33 C01"),
("f5-iter-start0", "E", ["        it->nextDataPage = max(lowbound, state->minDataPageId);", "        it->nextDataPage = (lowbound > state->minDataPageId && state->nextDataPageId < 2 * state->numDataPages) ? lowbound : state->minDataPageId;"], "C33"),
("f5-max-continue", "E", ["            if (it->maxKey != NULL && state->compareKey(key, it->maxKey) > 0)\n                return 0;", "            if (it->maxKey != NULL && state->compareKey(key, it->maxKey) > 0) {\n                if (it->queryBitmap == NULL) return 0;\n                continue;\n            }"], "C33 C02"),
("f5-oom-iter", "E", ["            if (it->queryBitmap != NULL) {\n                state->buildBitmapFromRange(it->minData, it->maxData, it->queryBitmap);\n            }", "            state->buildBitmapFromRange(it->minData, it->maxData, it->queryBitmap);"], "C32"),
("f5-oom-lastkey", "S", ["spl->points == NULL || spl->lastKey == NULL || spl->lower == NULL", "spl->points == NULL || spl->lower == NULL"], "C32"),
("f5-oom-stream", "E", ["    if (varDataStream == NULL) {\n#ifdef PRINT_ERRORS\n        printf(\"ERROR: Failed to alloc memory for embedDBVarDataStream\\n\");\n#endif\n        return 3;", "    if (varDataStream == NULL) {\n#ifdef PRINT_ERRORS\n        printf(\"ERROR: Failed to alloc memory for embedDBVarDataStream\\n\");\n#endif\n        return 1;"], "C32"),
("f5-oom-init-leak", "E", ["            free(state->spl);\n            state->spl = NULL;\n            return -1;", "            state->spl = NULL;\n            return -1;"], "C32"),
("f5-oom-lost-ok", "E", ["        return 3;\n    }\n\n    varDataStream->dataStart", "        *varData = NULL;\n        return 0;\n    }\n\n    varDataStream->dataStart"], "C32"),
("f5-erase-bin-clean", "E", ["        invalidateBufferedPages(&state->bufferedPageId, physicalPageNum, physicalPageNum + state->eraseSizeInPages);\n\n        /* Flag the pages", "        if (!EMBEDDB_USING_BINARY_SEARCH(state->parameters)) invalidateBufferedPages(&state->bufferedPageId, physicalPageNum, physicalPageNum + state->eraseSizeInPages);\n\n        /* Flag the pages"], "C01 C05 C02"),
("f5-inval-var-idx", "E", ["        invalidateBufferedPages(&state->bufferedVarPage, physicalPageId, physicalPageId + state->eraseSizeInPages);", "        if (!EMBEDDB_USING_INDEX(state->parameters)) invalidateBufferedPages(&state->bufferedVarPage, physicalPageId, physicalPageId + state->eraseSizeInPages);"], "C06 C07 C08"),
("f5-stream-pageid", "E", ["    if (stream->bytesRead < stream->totalBytes && stream->fileOffset % state->pageSize == 0) {\n        stream->fileOffset += state->variableDataHeaderSize;\n        stream->pageId++;", "    if (stream->bytesRead < stream->totalBytes && stream->fileOffset % state->pageSize == 0) {\n        stream->fileOffset += state->variableDataHeaderSize;\n        if (stream->bytesRead != 0) stream->pageId++;"], "C06 C07"),
("f5-nodata-ff", "E", ["    if (state->minVarRecordId == UINT64_MAX || state->compareKey", "    if ((state->minVarRecordId == UINT64_MAX && state->nextVarPageId != 0) || state->compareKey"], "C12 C07"),
("f5-var-mod-vp", "E", ["    uint32_t pageNum = (varDataAddr / state->pageSize) % state->numVarPages;\n\n    // Read in page", "    uint32_t pageNum = (varDataAddr / state->pageSize) & (state->numVarPages - 1);\n\n    // Read in page"], "C06 C08"),
("f5-rlc-temp-last", "E", ["    if (nextPage - state->rlcPhysicalStartingPage >= state->eraseSizeInPages * 2) {", "    if (nextPage - state->rlcPhysicalStartingPage > state->eraseSizeInPages * 2) {"], "C11 C22"),
("f5-rlc-erase-mod", "E", ["            eraseStartingPage = (eraseStartingPage + state->eraseSizeInPages) % state->numDataPages;", "            eraseStartingPage = eraseStartingPage + state->eraseSizeInPages; if (eraseStartingPage > state->numDataPages) eraseStartingPage -= state->numDataPages;"], "C11 C22"),
("f5-writepage-hdr", "E", ["    state->nextDataPageId++;\n    state->numAvailDataPages--;\n    state->numWrites++;", "    state->nextDataPageId++;\n    if (state->numAvailDataPages > 0) state->numAvailDataPages--;\n    state->numWrites++;"], "C05 C10"),
("f5-get-min64", "E", ["        if (thisKey >= bufMinKey) {", "        if ((uint32_t)thisKey >= (uint32_t)bufMinKey) {"], "C01 C14"),
("f5-setup-offset", "E", ["    if (varDataAddr % state->pageSize == 0) {\n        varDataAddr += state->variableDataHeaderSize;\n        varDataAddr %= (state->numVarPages * state->pageSize);\n        varPageId++;", "    if (varDataAddr % state->pageSize == 0) {\n        varDataAddr += state->variableDataHeaderSize;\n        varPageId += varDataAddr > state->variableDataHeaderSize;"], "C06 C07 C08"),
("f5-splinesearch-mid", "E", ["        lowbound = state->minDataPageId;\n        location = lowbound + (highbound - lowbound) / 2;", "        lowbound = state->minDataPageId;\n        location = highbound;"], "C33 C01"),
("f5-linear-page-lost", "E", ["        if (readPage(state, physPageId) != 0) {\n            return -1;\n        }", "        if (readPage(state, physPageId) != 0) {\n            high = --pageId;\n            continue;\n        }"], "C21"),
("f5-next-minreset", "E", ["            it->nextDataPage = state->minDataPageId;\n            it->nextDataRec = 0;", "            it->nextDataPage = state->minDataPageId;"], "C24"),
("f5-nextvar-flush", "E", ["    if (it->nextDataPage == state->nextDataPageId) {\n        // the record", "    if (it->nextDataPage == state->nextDataPageId && it->nextDataRec > 1) {\n        // the record"], "C08"),
]
