#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script only so that the long lines stay editable)."""
import json, os
E="src/embedDB/embedDB.c"; EH="src/embedDB/embedDB.h"; S="src/spline/spline.c"; U="lib/EmbedDB-Utility/embedDBUtility.c"
Q="src/query-interface/advancedQueries.c"; SC="src/query-interface/schema.c"; D="lib/Distribution/embedDB.c"
DF="lib/Desktop-File-Interface/desktopFileInterface.c"; SD="lib/SD-File-Interface/SDFileInterface.c"; FL="lib/Dataflash-File-Interface/dataflashFileInterface.c"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Point lookup is exact",
  "Looking up a key returns success and exactly the bytes last stored for it whenever that record is still retained (in storage or still buffered), and reports not-found for every other key. This holds after any interleaving of puts, flushes, lookups and scans, for every supported record, page and erase-block geometry and search mode.",
  ["histories","inputs","configurations"],
  "every put/flush/lookup/scan history up to the bound, every key of the history plus the gaps below, between and above, every configuration of the grid",
  "The tests look up keys after one bulk load per fixed configuration; they never interleave lookups with wrap-around, use pages holding few or very many records, or ask for absent keys systematically, so cache staleness and boundary arithmetic are not reached.",
  [E,S,D],[("lookup entry and write-buffer search","embedDBGet/searchBuffer in "+E),("page search","splineSearch, binarySearch, linearSearch, embedDBSearchNode"),("one-page read cache","readPage")],
  ["return code and output bytes of embedDBGet"],
  [("read buffer + bufferedPageId","cached physical page","embedDBState")])
p("C02","Key-range iteration is complete, exact and ordered",
  "An iterator with any combination of lower and upper key bounds (present, absent, equal, inverted, between keys, outside the stored range) returns exactly the retained records whose key lies in the inclusive range, each once, in ascending key order and with its own data, and then reports the end. Buffered records not yet written to storage are included.",
  ["histories","inputs","configurations"],
  "every history up to the bound; every pair of bounds drawn from all stored keys, the gaps between them and the extremes",
  "Tests use a handful of bounds on one data set; the start-page estimate, page skipping and write-buffer hand-over depend on where the bound falls relative to pages, spline points and dropped blocks.",
  [E,S,D],[("start page from the learned index","embedDBInitIterator"),("record loop and bound checks","embedDBNext")],["sequence returned by embedDBNext"])
p("C03","Data-filtered queries miss nothing and return nothing else",
  "An iterator with data bounds (with or without key bounds) returns exactly the retained records whose data value lies in the inclusive range, whether or not a bitmap index is kept. The index only affects which pages are read: partial index pages written by flushes, index wrap-around and absent index pages never change the result.",
  ["histories","inputs","configurations"],
  "every put/flush/query history up to the bound with data values in chosen buckets, every pair of data bounds at bucket edges, bitmaps of 1, 2 and 8 bytes, index areas small enough to wrap",
  "The index is exercised by tests only through bulk loads that fill whole index pages; which data page an index entry describes after flushes, wraps and reopens is a property of the whole history.",
  [E,U,D],[("bitmap maintenance per page","embedDBPut"),("index page fill and flush","embedDBPut, embedDBFlush, writeIndexPage"),("index consultation","embedDBNext")],["sequence returned by embedDBNext","pages read (device log)"])
p("C04","Keys are strictly ascending and a rejected put changes nothing",
  "A put is accepted if and only if its key is greater than every key accepted before it (including keys already flushed, dropped by wrap-around, or recovered on reopen). A rejected put reports an error and leaves every later observation exactly as if it had never been issued.",
  ["histories","inputs"],
  "every history up to the bound with duplicate, smaller and boundary keys attempted in every state (empty buffer, partial page, just flushed, just wrapped, just reopened)",
  "Tests try one duplicate on a full page; the comparison key comes from different places depending on the buffer state and a wrong one silently accepts disorder that later breaks every search.",
  [E,D],[("order check against previous key","embedDBPut")],["return code of put","all later observations"])
p("C05","Wrap-around drops exactly the oldest erase block, only when needed",
  "Storage keeps every accepted record until the page area is full; then writing one more page discards the records of the oldest erase block and of nothing else, so the most recent (capacity minus one block) pages of records are always retrievable. With record-level consistency two further blocks are reserved and the same rule holds for the remaining capacity.",
  ["histories","configurations"],
  "all histories of puts and flushes through several wraps, every geometry of the grid (erase block 1..4 pages, minimal to larger page counts)",
  "Tests check counters after a few bulk loads of one geometry; which records survive after flush-shortened pages and repeated wraps is not compared record by record.",
  [E,D],[("erase of the oldest block","writePage"),("record-level block shift","shiftRecordLevelConsistencyBlocks"),("spline cleanup","cleanSpline")],["full contents by lookup and iteration after each page write"])
p("C06","Variable-length data round-trips for every length and chunking",
  "For any record stored with variable data and still retained, reading it returns exactly the stored bytes and length in order, for every length (including zero, page-filling and multi-page) at every position in a page and for any sequence of read chunk sizes; a record stored without variable data yields no stream. Reading never disturbs what is stored or buffered.",
  ["inputs","histories","configurations"],
  "every sequence of lengths from the boundary set up to the bound, every chunk size, reads before and after flush and in between puts",
  "Tests store short strings of one or two lengths; the length word, header skipping and page crossing have cases that only specific offset/length combinations reach.",
  [E,D],[("layout of length word and bytes","embedDBPutVar"),("stream setup and reading","embedDBSetupVarDataStream, embedDBVarDataStreamRead"),("flush-on-read","embedDBGetVar, embedDBFlushVar")],["embedDBGetVar return code, stream bytes"])
p("C07","Overwritten variable data is reported as gone, never as other bytes",
  "When the variable-data area wraps, each retained record either still yields exactly its own variable data or is reported as having lost it; data is lost only for records whose bytes lay in an erase block that had to be reclaimed. The fixed part of such records stays readable.",
  ["histories","configurations"],
  "all histories with var areas of 2..4 blocks through several wraps, every record checked after each operation, under no-op, 0xFF, 0x01 and 0x00 erase contents",
  "Tests check a few records after one bulk wrap on a device whose erase does nothing; the threshold key is recomputed at each erase and depends on device contents and page fill.",
  [E,D],[("smallest record still having data","writeVariablePage (minVarRecordId)"),("check on read","embedDBSetupVarDataStream")],["embedDBGetVar return code and bytes"])
p("C08","Variable-data iteration agrees with lookup",
  "Iterating with variable data returns the same records in the same order as plain iteration and, for each of them, the same variable-data outcome (exact bytes, none, or lost) as looking that key up, no matter where the records currently are (stored pages, write buffer, or both) and with any reads interleaved.",
  ["histories","inputs"],
  "every history up to the bound, every bounds pair of the set, reading or not reading each stream, lookups between steps",
  "Tests iterate only over flushed data starting at page zero; the hand-over to the write buffer and the effect of the flush-on-read are state dependent.",
  [E,D],[("variable-data iterator","embedDBNextVar"),("shared read buffer","readToWriteBuf")],["embedDBNextVar records and streams"])
p("C09","A clean reopen preserves flushed data and the ability to continue",
  "After a flush and close, reopening over the same storage gives back every retained record (only the block about to be reclaimed may be given up when the last page written ended an erase block of a wrapped area), and the reopened database behaves from then on exactly like one that had never been closed: puts, ordering, wrap-around, queries and further reopens. Reopening with another choice of lookup method, learned-index size or error bound, or with the bitmap index switched on or off, changes no result. Opening without a data file creates an empty database whatever other files are left over, and asking for a reset discards old contents.",
  ["histories","configurations"],
  "every history of puts/flushes/reopens up to the bound at every fill level of the page area, then continued through at least one further wrap; every erase-content flavour",
  "Tests reopen at about ten hand-picked fill levels of one geometry and look at counters; continuation after reopening and repeated reopens are hardly covered.",
  [E,D],[("scan for newest and oldest page","embedDBInitDataFromFile"),("rebuild of the learned index","embedDBInitSplineFromFile")],["all records after embedDBInit without reset and after further operations"])
p("C10","A crash loses only what was not yet written",
  "If power is lost between any two device operations of any history, or while a block is being erased, reopening succeeds and yields a contiguous ascending run of the accepted records with correct data, containing at least every record whose flush had completed, except those of the block that the interrupted write was about to reclaim and of the block a reopen may give up when the last page ended an erase block of a wrapped area; it contains nothing that was never put. The recovered database accepts new puts and stays correct from then on. A flush that reports success has flushed every file it wrote to the device.",
  ["crash_points","histories","configurations"],
  "every device-operation prefix of every history up to the bound (page writes are atomic, an interrupted erase has erased a prefix of its block), for no-op, 0x01, 0xFF and 0x00 erase contents",
  "No test cuts execution between an erase and the write that follows it; recovery then meets half-reclaimed blocks.",
  [E,D],[("write path order","writePage"),("recovery scan","embedDBInitDataFromFile")],["contents after reopening each device image"])
p("C11","Record-level consistency: no acknowledged put is lost by a crash",
  "With record-level consistency enabled, after a crash between any two device operations of any history (also during recovery itself) reopening yields every acknowledged, still retained record with its data, at most the one put in flight in addition, and the recovered database keeps the same guarantee for further puts, flushes and crashes.",
  ["crash_points","histories","configurations"],
  "every device-operation prefix of every put/flush/reopen history up to the bound through several wraps, second crashes inside recovery, erase blocks of 2..4 pages, every erase-content flavour",
  "Tests reopen at fixed record counts after complete operations; they never stop between the temporary page, the permanent page and the erases, nor flush on block boundaries.",
  [E,D],[("temporary pages","writeTemporaryPage"),("block shifting","shiftRecordLevelConsistencyBlocks"),("recovery","embedDBInitDataFromFileWithRecordLevelConsistency")],["contents after reopening each device image"])
p("C12","Variable data after reopen or crash is intact or reported lost",
  "After a reopen or a crash at any device operation, every recovered record's variable data is either exactly what was stored with it or reported as absent or lost, never other bytes, also after further puts reuse the space. Data whose flush completed (with record-level consistency: whose put was acknowledged) and whose space was not due for reclaiming is intact (pages orphaned by a crash count as the space of the records that are put again with the same or smaller keys).",
  ["crash_points","histories","configurations"],
  "every device-operation prefix of every history up to the bound with and without record-level consistency, followed by continued puts that reuse the area",
  "Tests recover var data after complete flushes only and never continue writing; a fixed record that outlives its variable page is invisible to them.",
  [E,D],[("order of data and var page writes","embedDBPutVar, embedDBFlush"),("var recovery","embedDBInitVarDataFromFile")],["embedDBGetVar after reopening each device image"])
p("C13","Index recovery never changes query results",
  "After a reopen or a crash at any device operation, data-filtered queries return exactly the recovered records that match, whatever part of the bitmap index was lost, stale, already erased, or never written because the index was switched off for a while, and continue to do so after further puts, flushes and index wrap-around.",
  ["crash_points","histories","configurations"],
  "every device-operation prefix of every history up to the bound with tiny index pages and areas; all erase-content flavours; queries after continued operation",
  "Index-recovery tests only look at three counters; no test runs a filtered query after recovery.",
  [E,D],[("index recovery","embedDBInitIndexFromFile"),("index consultation","embedDBNext")],["filtered iterator results after reopen"])
p("C14","Results do not depend on the search structure",
  "For the same operations, results are identical whatever the learned-index error bound, number of index points, clean-up setting, or choice of binary search. This includes key distributions that exhaust the points and histories whose wrap-around discards them.",
  ["configurations","histories","inputs"],
  "all key-gap patterns up to the bound from {1, small, huge}, all error bounds 0..4 and point counts from the minimum, against binary search as the reference",
  "Tests fix error bound 1 and near-linear keys; corridor logic and point eviction only differ on irregular gaps.",
  [E,S,D],[("spline search","splineSearch, splineFind"),("binary search","binarySearch"),("clean-up","cleanSpline")],["lookup and iteration results of sibling databases"])
p("C15","The learned index always brackets the right page",
  "For every ascending sequence of page first-keys, every error bound and every number of points, the page range the learned index reports for a key contains the page that holds it (or would hold it), before and after points are evicted or cleaned, and its point count never exceeds its allocation.",
  ["inputs","histories"],
  "all gap sequences over an alphabet including 1, small, large and near-overflow gaps up to the bound, key sizes 4 and 8, all erase points in between",
  "Spline tests check counts for one linear data set; overflow and eviction corner cases need specific gap sequences.",
  [S,D],[("corridor construction","splineAdd"),("interpolation","splineFind"),("eviction","splineErase")],["splineFind bounds versus true position"])
p("C16","Bitmap helpers give no false negatives and comparators are total orders",
  "For the supplied bitmap helpers, any value within a query range shares a bucket with that range's bitmap and is reported as present in any bitmap it was added to; for half-open and unbounded ranges too. The supplied comparators order any two values of their type numerically.",
  ["inputs"],
  "all values from 0 or -50 up to beyond the last bucket plus extremes, all pairs of bounds at and around bucket edges; all pairs from an extreme-value set for comparators",
  "No test calls the helpers directly; bucket edges and byte order matter only for particular value/bound pairs.",
  [U,D],[("bucket mapping","updateBitmapInt8/16/64"),("range bitmap","buildBitmapInt8/16/64FromRange"),("membership","inBitmapInt8/16/64"),("comparators","int32Comparator, int64Comparator")],["helper outputs"])
p("C17","Selection and projection compute their relational meaning",
  "A pipeline of table scan, selections and projections returns exactly the rows, in key order, that filtering and column-picking the table contents by definition would give, for every comparison operator, column width and signedness, and repeated calls after the end keep reporting the end; initialising a query again over an input that starts over yields the whole result again. A schema holds the sizes and signedness it was created from, exactly, or is refused when a size is zero or out of range.",
  ["inputs","programs"],
  "all pipelines up to three operators over all columns and operators, column widths 1..8 signed and unsigned, values at sign and size boundaries",
  "The only query-interface test needs a data set that is absent here and covers six fixed queries.",
  [Q,SC,D],[("operators","nextTableScan, nextSelection, nextProjection"),("comparison","compareSignedNumbers, compareUnsignedNumbers"),("schema","schema.c")],["exec results"])
p("C18","Grouped aggregates equal their definition",
  "Grouping consecutive rows and applying count, sum, min, max or average yields one row per group in order with the mathematically correct value (averages up to floating-point rounding) for every column width (1 to 8 bytes) and signedness whenever the sum fits 64 bits, for every partition of the rows into groups, including an empty input and a single group, and also when its input is itself an aggregate or a join.",
  ["inputs","programs"],
  "all compositions of up to 8 rows into groups, boundary values per column, all aggregate functions and widths",
  "Not covered by any runnable test; sign extension and carry-over of the first row of the next group depend on widths and group shapes.",
  [Q,D],[("group loop","nextAggregate"),("functions","sumAdd, avgAdd, minAdd, maxAdd, countAdd")],["exec results"])
p("C19","Key join returns exactly the matching pairs",
  "Joining two scans on their keys returns, in key order, exactly one combined row for every key present in both inputs, whatever the overlap pattern, relative sizes, or filtering of the inputs, also when an input is itself a join or an aggregate, and then reports the end.",
  ["inputs","programs"],
  "all pairs of key subsets of a small universe, with and without selections under the join",
  "Only one join over a fixed (absent) data set is tested.",
  [Q,D],[("merge loop","nextKeyJoin")],["exec results"])
p("C20","Database instances are independent",
  "Any interleaving of operations on several open databases (same or different configurations, each with its own storage) gives each of them exactly the results it would give alone, including iterators and variable-data streams open on different instances at the same time; and queries (operator trees) that are open at the same time, on the same or on different databases, return what each returns alone.",
  ["schedules","histories","configurations"],
  "all interleavings of two operation scripts (merge orders) and deviation-bounded interleavings of longer ones, over pairs of different configurations",
  "Tests run instances mostly one after the other with equal parameters; hidden shared state shows only in interleavings.",
  [E,S,Q,D],[("all state reached through the state argument","embedDBState")],["results of each instance versus a solo run"])
p("C21","A failing device is reported and never corrupts what was stored",
  "If a read, write or erase of the storage device fails, the operation that needed it reports an error or end instead of success or wrong data, and records that were durably stored before remain correct; no put, flush or initialisation returns success when a write, erase or flush it issued was refused.",
  ["fault_sequences","histories"],
  "every single device-operation failure (and pairs) in every history up to the bound, on each of the data, index and variable files, transient faults with continued operation",
  "Tests never inject device errors.",
  [E,D],[("device call sites","writePage, writeTemporaryPage, writeIndexPage, writeVariablePage, readPage"),("callers","embedDBPut, embedDBPutVar, embedDBFlush, embedDBGet, embedDBNext")],["return codes and contents after a fault"])
p("C22","Device accesses respect the storage contract",
  "All page writes and erases go to the right file and stay inside its configured page area, erases cover exactly one aligned erase block, and (flash discipline) no page is written twice without its block having been erased in between. This holds in every history including wrap-around, record-level consistency, reopen and recovery.",
  ["histories","crash_points","configurations"],
  "every device operation of every history explored, including recoveries from every crash point",
  "Desktop files tolerate out-of-range and repeated writes, so tests on files cannot see violations.",
  [E,D],[("erase before reuse","writePage, writeIndexPage, writeVariablePage, writeTemporaryPage, shiftRecordLevelConsistencyBlocks"),("recovery erases","embedDBInitDataFromFileWithRecordLevelConsistency")],["device log"])
p("C23","Memory safety and no leaks",
  "Operations never read or write outside the buffers the user supplied and the memory they allocated, never use uninitialised state, and after closing iterators, streams, operators and the database everything allocated has been released; steady-state puts, gets and scans do not grow memory use.",
  ["histories","configurations","inputs"],
  "every operation history up to the bound and long default histories, every configuration of the grid with exact-size buffers, under address sanitizer with poisoned surroundings",
  "Tests use oversized buffers and run without sanitizers.",
  [E,S,Q,D],[("buffer layout","embedDBInit, initBufferPage"),("allocation","splineInit, embedDBInitIterator, embedDBSetupVarDataStream")],["sanitizer, guard bytes, allocation ledger"])
p("C24","Open cursors stay correct while the database is used",
  "An open iterator keeps returning each record retained at the time of the step at most once, in strictly ascending key order with its own data, and skips no record that stays retained, while lookups, other iterators, puts, flushes and wrap-around happen between its steps. A variable-data stream keeps delivering its own bytes under interleaved reads.",
  ["histories","schedules"],
  "every interleaving up to the bound of steps of two iterators and a stream with lookups, puts and flushes, through wraps",
  "Tests run each iterator to completion alone.",
  [E,D],[("iterator position","embedDBIterator"),("shared read buffer","readPage, readToWriteBuf")],["sequence returned by each cursor"])
p("C25","Configuration is validated and features are transparent",
  "Initialisation succeeds for every configuration meeting the documented requirements and returns an error, without touching storage, for every one violating them (key size, page counts versus erase size, a variable data area too large for 4-byte locations, buffer blocks, index points, missing files). For accepted ones, turning on bitmap, min/max, index, variable data or record-level consistency never changes what lookups and iterations of fixed data return.",
  ["configurations"],
  "the full grid of feature flags x key sizes x data sizes x geometries; each rule broken one at a time",
  "Tests use a handful of flag combinations with 8-byte bitmaps and 4-byte keys; header offsets for the others are unchecked.",
  [E,EH,D],[("validation and header layout","embedDBInit, embedDBInitData, embedDBInitIndex, embedDBInitVarData"),("header maintenance","embedDBPut")],["return of embedDBInit; contents"])
p("C26","The single-file distribution behaves like the sources",
  "The distribution build and the source build produce the same return codes, results, storage images and write counts for the same operations on the same configuration, each counts its own device accesses correctly, and each can reopen storage written by the other.",
  ["histories","configurations"],
  "every history up to the bound executed on both builds in lock step",
  "The suites run each build separately with loose assertions; no test compares them.",
  [D,E,S,U,Q,SC],[("amalgamation","amalgamation/amalgamation.py"),("copy","lib/Distribution/embedDB.c")],["return codes, outputs, device images"])
p("C27","The supplied file interfaces honour the page-device contract",
  "For the desktop, SD-card and dataflash interfaces, a page read after a successful write returns exactly what was last written to that page and no other page changes; a page behind the end of the file (or of the dataflash area, or of the largest file an SD card can hold) cannot be read, whatever its number, and every failing storage call is reported as failure by the operation that needed it; what was acknowledged by a successful flush or close is in the storage. For the two file-based interfaces opening for read/write fails if the file does not exist and keeps its contents if it does, opening for creation empties it, and contents survive close and reopen. The desktop interface's simulated erase (getMockEraseFileInterface) fills exactly the pages of the range with bytes of value 1. Return codes are 1 or 0.",
  ["histories","fault_sequences"],
  "every sequence of open/read/write/erase/flush/close up to the bound over a few pages, against an array model; every short read/write of the underlying storage library",
  "Only the desktop interface is used by tests, always successfully.",
  [DF,SD,FL],[("interface functions","FILE_*/MOCK_FILE_ERASE, SD FILE_*, DF_*")],["return codes and page contents"])
p("C28","Operation statistics match what happened on the device",
  "The read, write, index-read and index-write counters equal the number of page reads and writes actually performed on the device (data and variable-data pages together, index pages separately, temporary record-level-consistency pages not counted as writes) since initialisation or the last reset, in every history.",
  ["histories","configurations"],
  "every history up to the bound, counters compared to the device log after every operation",
  "Tests assert a few counter values of bulk runs.",
  [E,D],[("counters","readPage, writePage, readIndexPage, writeIndexPage, readVariablePage, writeVariablePage, embedDBResetStats")],["counter fields versus device log"])
p("C29","Storage holds the documented page format",
  "In every reachable state each retained data page on storage carries, in this order: its logical page id (4 bytes), its record count (2 bytes), the bitmap of its records if an index or bitmaps are used, the minimum and maximum key and the minimum and maximum data if those are enabled, and then exactly its records in key order, each with key, data and, with variable data, the 4-byte location of its variable data or 0xFFFFFFFF for none. Index pages hold their id, their entry count, the first data page they describe (at byte 8) and from byte 16 one bitmap per data page, equal to that page's. Variable data pages start with their id and a key not smaller than that of any record with bytes on the page; a location refers to the 4-byte length followed by the bytes, continued behind the headers of the following pages. Logical page p lies at page p modulo the area. So storage written by one version can be read by another.",
  ["histories","configurations"],
  "every history up to the bound, including wrap-around, reopen and crash recovery; every feature combination of the listed configurations; all bytes of all retained pages",
  "Every test writes and reads with the same code, so a change of the format on both sides goes unnoticed; header fields that no query reads (minimum and maximum) are never looked at.",
  [E,EH,D],[("page headers and records","putRecord, writeBufferedRecords, writePage, initBufferPage"),("index pages","writeIndexPage"),("variable data pages","embedDBPutVar, writeVariablePage")],["raw device contents"])
p("C30","Queries are read-only",
  "Lookups, iterators (with any bounds), variable data lookups and streams never write, erase, flush, open or close any file, in any state, so they neither wear the storage nor change what a crash or a reopen would find. The one exception: a lookup or iteration that returns variable data may first write out the page of buffered variable data (to that file only, one page), to read it from there; the records in the fixed-size write buffer and the data and index files are never touched.",
  ["histories","configurations"],
  "every history up to the bound with every query of the observers in every state, all device accesses of each query call",
  "Tests only look at the results of queries.",
  [E,D],[("queries","embedDBGet, embedDBGetVar, embedDBNext, embedDBNextVar, embedDBVarDataStreamRead")],["device log"])
p("C31","The amalgamation is complete, ordered and reproducible",
  "For every set of headers and sources (one source per header, include directives on lines of their own), the amalgamation script writes a header that has every needed standard include once, before all code, and then the contents of every header exactly once, each after the headers it includes, and a source with the contents of every source file exactly once; nothing but include directives is dropped, whatever the file names, directories and include paths. Cyclic includes are rejected with an error and nothing is written. The same files always give the same output, in whatever order the file system lists them. The amalgamated repository compiles and behaves like the separate sources.",
  ["include graphs","directory orders","file names"],
  "every include graph over up to four headers with several layouts, names and directory orders; the repository itself under several hash seeds; lock-step exploration of the amalgamated sources",
  "Tests check that the sort contains every node of one graph and rejects three cyclic ones; no output is ever produced or compared.",
  ["amalgamation/amalgamation.py"],[("amalgamation","amalgamate, topsort, retrieve_source_set, order_file_nodes_by_sorted_filenames")],["the files written"])
p("C32","Running out of memory is reported and harmless",
  "Whichever allocation of whichever call fails, and however many in a row: the call that needed the memory reports failure in its own way (an error code, NULL, the end of the results; a query whose initialisation failed returns no rows) or gives the exact result without it (an iterator that has no memory for its bitmap filter simply reads more pages). Nothing crashes, no other call of the same or another database is disturbed, stored data is unchanged, repeating the operation once memory is available succeeds, and after closing and freeing what was successfully created nothing is left allocated.",
  ["allocation faults","histories","programs"],
  "every single allocation (and every run of allocations of one call) failing at every position of every history up to the bound, for databases, iterators, streams, schemas, query operators and all file interfaces",
  "No test makes an allocation fail; on the small devices this is written for it is an everyday event.",
  [E,Q,SC,D,"lib"],[("initialisation","embedDBInit, embedDBInitIndex, embedDBInitVarData"),("queries","embedDBInitIterator, embedDBNextVar, embedDBGetVar"),("operators","createTableScanOperator, createSelectionOperator, createAggregateOperator, exec"),("schema","embedDBCreateSchema, copySchema"),("file interfaces","setupFile")],["return values","heap balance"])
p("C33","Queries read only the pages they need",
  "A lookup reads at most 2 * maxError + 1 data pages with the learned index (as long as its points fit) and at most about log2 of the stored pages with binary search, none when the key is in the write buffer, and never the index file. An iteration reads each data page at most once, at most 2 * maxError + 1 pages that end below its smallest key, at most one that starts above its greatest key, none whose stored index entry excludes the data range asked for, and the index only when there is such a range, each of its pages about once; the index keeps covering all but the last erase block of its area. Reading variable data from its start to its end reads each of its pages at most once, whatever the chunk size. Initialisation reads no page more than three times.",
  ["histories","key distributions","query parameters"],
  "every history up to the bound with even and very uneven key gaps, every lookup and every pair of bounds, after wraps, reopens and crashes",
  "Tests check results, never the number of accesses; a lookup that silently falls back to scanning everything passes them all.",
  [E,S,D],[("lookups","embedDBGet, splineFind, linearSearch, binarySearch, readPage"),("iteration","embedDBInitIterator, embedDBNext, findIndexRecord"),("streams","embedDBVarDataStreamRead"),("recovery","embedDBInitDataFromFile, initializeSpline")],["device log"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
