# per property: (what is enumerated, oracle, why tests cannot reach it)
T = {
"C01": ("Histories of puts, flushes, lookups, scans and reopens over 26 geometries (key sizes 1-8, record sizes up to 128 bytes, pages of 16-65535 bytes, up to 960 pages, page numbers beyond 16 bits, linear and irregular keys up to the full key space, both search modes, all features). In every state all keys from four before the oldest retained record to the newest, their neighbours, 0 and the maximum are looked up, upwards, downwards and alternating (page jumps), and each once from the untouched cache.", "array of accepted records; retained = not reclaimed by the block arithmetic", "cache/buffer/partially filled page/wrap-around combinations"),
"C02": ("In every state, iterators with no bound, every single bound and every ordered and inverted pair from a candidate set (first, last, middle, between keys, outside, page boundary, write-buffer boundary, reclaimed key, 0, maximum) run to the end and one step beyond.", "filter of the array in order", "bounds meeting every buffer/page/index state"),
"C03": ("As C02 with data bounds over all buckets and bucket boundaries, combined with key bounds, with and without index/bitmap, small index pages so that the index wraps, flushes (partial index pages), record patterns chosen by `h<bucket>`, the repository's own bitmap helpers.", "filter of the array", "index page/data page alignment in every flush pattern"),
"C04": ("Duplicate, smaller-by-one and far-smaller puts (fixed and variable, also when the buffer is empty, after flush, wrap and reopen) at every position of the histories; the state after a rejected put is explored further.", "accept iff greater than the last accepted key; rejected = model unchanged", "rejection at exact page/flush boundaries"),
"C05": ("All wrap positions for erase blocks of 1-4 pages, with and without record-level consistency, under flush patterns; retained set compared by lookup and scan.", "logical page arithmetic: one block is dropped when a page is needed and none is free", "off-by-one at the second, third... wrap"),
"C06": ("Lengths 0..5 pages at every position in a page, mixes with NULL variable data and plain puts, chunk sizes 1,5,64,1000 and others, small pages, interleaved reads; exact heap buffers behind each chunk.", "bytes are a function of key and position", "length header or data meeting page boundaries"),
"C07": ("Wrapping variable-data areas smaller than what the records need, block sizes 1-4, data written by several records per page and several pages per record.", "a record's data must be exact unless one of its pages left the area", "which record owns the reclaimed block"),
"C08": ("NextVar iteration against GetVar from every state, with lookups interleaved between steps.", "same array", "records moving between write buffer and pages"),
"C09": ("flush+close+reopen and close+reopen at every position, repeatedly, on all erase behaviours, absent files, reset; exploration continues on the reopened database with the same oracle.", "retained set; only the allowed block may go", "position of the last page relative to block and wrap"),
"C10": ("Power cut before/after every device write and erase of every operation and inside of every block erase (every prefix of the block gone), also during recovery, also twice in one history; then continued use.", "durable prefix of the model before and after the interrupted operation", "every crash point of histories that wrap"),
"C11": ("As C10 with record-level consistency: every acknowledged put must be there.", "all acknowledged records, at most one more", "temporary page blocks at every phase, crash during recovery"),
"C12": ("As C10/C11 with variable data, exact bytes compared.", "bytes exact or reported lost; floor computed from durable pages", "crash between variable page, record page and reclaim"),
"C13": ("As C10 with index and data-filtered queries after recovery and after the index wraps again.", "filter of recovered records", "index and data files cut at different points"),
"C14": ("The same histories with error bound 0,1,4,64, 4-64 points, cleaning on/off and binary search, exhausting the points; every job is compared with the same model.", "array", "estimation errors only on certain key distributions"),
"C15": ("The spline module itself (`mc/splinex.cpp`): all sequences of first-key distances from small alphabets incl. huge ones up to the key width, all error bounds/point counts/start keys, with cleaning and eviction enumerated at every step; in each state every key that matters (first, last-in-page, gaps, outside) is searched.", "position in the list of first keys", "rounding, eviction, overflow"),
"C16": ("The helpers as a transition system (`mc/utilx.cpp`): every 8- and 16-bit bitmap (64 bits: up to three buckets set or up to two clear) x every value class is stepped (no bucket lost, value present afterwards); every (low, high) range including half-open and unbounded ones x every value inside; comparators on all pairs of a domain around all powers of two; the three bitmap widths also inside a database.", "numeric order; bucket membership", "domain corners"),
"C17": ("All tables of up to 4 rows over a value alphabet per column width (1-8) and signedness x six operators x comparison values; all pipelines of selections and projections to depth 3 over five schemas (any column, any column subset) x key-bounded scans x flush positions x table configurations (variable data, index, bitmaps, min/max, record-level consistency, reopened) and data-bounded scans; executed to two calls past the end, heap balance after close and free (`mc/opsx.cpp`); all sequences of column widths up to a row length, and rows of up to 255 columns, through operators of our own (`what=wide`).", "relational definition computed on the same rows in 128-bit arithmetic", "width/sign corners, re-execution"),
"C18": ("All tables of up to 8 rows x all partitions into groups x width x sign for all six functions at once, with and without group label, below and above selections and projections, empty inputs; groups of 1..65537 rows and rows of up to 255 columns through operators of our own; aggregates of aggregates and around joins (`what=nest`).", "definition in 128-bit arithmetic; averages up to rounding of the result type", "corners of widths, counters and empty inputs"),
"C19": ("All pairs of subsets of 5-8 keys (every overlap pattern and relative size; keys chosen to differ in single bytes) x key-bounded and filtered inputs, projections, self-joins, flush positions, wide rows on both sides; joins of joins in both orders and of aggregates (`what=nest`); two calls past the end.", "pairs of equal keys in key order", "end and skip order"),
"C20": ("Two databases of different configurations live side by side (`two=1` in `mc/explore.cpp`): all interleavings of their puts, flushes, closes, opens, open cursors and streams, and failing accesses of one of them; all interleavings of the calls of two of ten operator trees on the same or different databases (`what=two` in `mc/opsx.cpp`).", "each against its own model; after every call the whole memory and storage of the other is compared byte for byte with what it was", "hidden shared state, wrong handle used"),
"C21": ("Every device access of every operation fails, once or persistently for the operation, optionally twice per history or followed by a power cut; exploration continues after it.", "reported error or right answer; model unchanged or page written as a whole", "every fault position"),
"C22": ("The device contract is monitored in all explorations: flash erase behaviours, wrap, record-level consistency, reopen, crash and recovery.", "contract monitor", "double programming needs particular wrap/crash phases"),
"C23": ("Heap canaries, poison, exact user buffers, leak balance at close after every observation, all states; the query operators, the spline, the file interfaces and large pages too. Every exploration of `other=fill` runs twice with fresh heap and stack memory of zeros and of junk and must give the same digest at every step.", "monitor; results must not depend on the fill pattern of fresh memory", "overruns at rare lengths"),
"C24": ("Two iterators (also with disjoint data ranges) and a stream in the state; all interleavings of their steps with puts, flushes, lookups and wrap-around up to depth 8-24.", "retained records after the last returned key", "reclaim between steps"),
"C25": ("`mc/cfgx.cpp`: all 128 feature combinations x one, two (thorough: three) parameters at boundary values (page counts up to 2^30, so that products exceed 32 bits) against the documented rules; erase blocks of 127 to 65535 pages, those up to 257 past the wrap-around; a rejected configuration must leave the device log empty and the heap balanced, an accepted one runs past its wrap-around and a reopen; creating each file fails in turn; and all feature combinations x key sizes 1-8 x data sizes x bitmap sizes run all histories with up to D flushes/reopens at every position.", "rule table; array of records (the same for all features)", "combinations"),
"C26": ("Both builds execute every history of the bounded spaces in the same order (`mc/pair.py`); a digest over return codes, outputs, statistics and storage images is compared step by step; every storage state one build reaches is opened, read completely and continued by the other; the component explorers (learned index, helpers, operators) must have the same outcomes on both.", "equality", "copy drift in rarely used code"),
"C27": ("All sequences of open (every mode)/close/flush/read/write/erase/tear-down over a few pages of one and two files, up to a depth, on the desktop interface (both variants), the SD interface with its wrapper, and the dataflash interface with its wrapper (`mc/filex.cpp`); every call of the storage library underneath (stdio through fopencookie, the SdFat class and the dataflash driver as stand-ins in memory, so nothing outside the process is touched) fails once, completely or half way; also real files in a scratch directory, page sizes 8-40000, pages beyond 4 GiB.", "map of pages per file with unknown contents where a failure was reported", "ignored results, short transfers, offsets"),
"C28": ("The statistics are compared with the device log after every call of every history, including crashes, reopens and refused accesses.", "device log", "cache hits, wrap reads, failures"),
"C29": ("In every state of the histories (wraps, reopens, crashes, all features) every byte range of every retained data, index and variable data page is compared with the format computed from the model (`obsFormat` in `mc/explore.cpp`).", "documented layout filled from the array of accepted records", "symmetric format changes, header fields nobody reads"),
"C30": ("Every query issued by the observers in every state of the histories; the device log of the call may only contain reads (for variable data: also writing out one buffered variable data page).", "device log", "queries that flush or repair in rare states"),
"C31": ("`mc/amalg.py` runs the amalgamation script on scratch copies: every include graph over up to four headers x placements of includes x layouts x directory orders; parses, compares and compiles the output; the repository itself under hash seeds and directory orders; the explorers run in lock step on sources and on a fresh amalgamation.", "the input files: every line present once, order derived from the graph", "graphs the tests do not contain, file names, set order"),
"C32": ("Allocation faults are a third kind of fault of the injector (`oomHook` in `mc/rt.cpp`, type bit 128): in every history each allocation in turn fails, once or together with all later ones of the call (`mc/fault.inc`), on databases with every feature, on iterators, streams, reopens, on pairs of databases, on pipelines of all operators (`opsx what=oom`) and on all file interfaces (`filex oom=1`).", "reference model of the history without the failed call; heap balance; exact retry", "NULL dereferences and leaks on error paths, half-initialised state"),
"C33": ("The device log of every lookup, whole iteration, whole stream and initialisation in every state of the histories is counted per page (`budgetGet`, `IterBudget` in `mc/explore.cpp`) and compared with the budget computed from the model: pages and their records, bounds, bitmaps, stored index entries.", "reference model of which pages can hold an answer", "silent fall-backs to scanning, index never used, caches that never hit"),
}
