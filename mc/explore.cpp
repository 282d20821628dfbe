// Explicit-state explorer for one EmbedDB instance on in-memory devices.
// States are snapshots of the real implementation (heap, buffers, statics, devices) together with the
// reference model; transitions are real API calls, power cuts and injected device failures.
#include <functional>
#include <time.h>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <set>
#include "db.h"

Cfg C;
// Two databases side by side: W and C always denote the one an operation is applied to.
static Cfg CC[2]; static int side = 0;
static void sel(int i) { if (W2[0]) { side = i; W = W2[i]; C = CC[i]; } }
static void setAlt() {
    if (W2[0] || !W) return;
    const Cfg &b = CC[0]; int a = M().alt;
    C.bin = b.bin ^ (a & 1); C.idx = b.idx ^ (a >> 1 & 1); C.spl = a & 4 ? b.spl + 3 : b.spl; C.err = a & 4 ? b.err + 2 : b.err; C.nosc = b.nosc ^ (a >> 3 & 1);
}
static std::string PROP = "C00";
struct CrashEx {};

[[noreturn]] void vio(const char *fmt, ...) {
    char b[600]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
    throw Violation{b};
}

// ------------------------------------------------------------------ content
static u64 mix(u64 x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ull; x ^= x >> 33; return x; }
void keyBytes(u64 k, u8 *o) { memcpy(o, &k, C.k); }
u64 keyVal(const u8 *b) { u64 v = 0; memcpy(&v, b, C.k); return v; }
static int dw() { return C.d >= 4 ? 4 : C.d >= 2 ? 2 : 1; }
void dataBytes(const Rec &r, u8 *o) {
    for (int i = 0; i < C.d; i++) o[i] = (u8)(mix(r.seed + 77) >> (8 * (i % 8))) + i;
    memcpy(o, &r.dv, dw());
}
int32_t dvOf(const u8 *b) {
    if (dw() == 4) { int32_t v; memcpy(&v, b, 4); return v; }
    if (dw() == 2) { int16_t v; memcpy(&v, b, 2); return v; }
    return (int8_t)b[0];
}
u8 varByte(u32 seed, u32 i) { return (u8)(mix(((u64)seed << 20) + i / 8) >> (8 * (i % 8))); }

template <int K> static int8_t cmpU(void *a, void *b) {
    u64 x = 0, y = 0; memcpy(&x, a, K); memcpy(&y, b, K); return x < y ? -1 : x > y ? 1 : 0;
}
static int8_t (*cmpUs[9])(void *, void *) = {cmpU<1>, cmpU<1>, cmpU<2>, cmpU<3>, cmpU<4>, cmpU<5>, cmpU<6>, cmpU<7>, cmpU<8>};
static int8_t cmpD(void *a, void *b) { int32_t x = dvOf((u8 *)a), y = dvOf((u8 *)b); return x < y ? -1 : x > y ? 1 : 0; }
static int bucketOf(int32_t v) { int b = (v - C.vbase) / C.vstep; int top = 8 * C.bm - 1; return v < C.vbase ? 0 : b > top ? top : b; }
static void bmUpd(void *d, void *bm) { int b = bucketOf(dvOf((u8 *)d)); ((u8 *)bm)[b / 8] |= 1 << (b % 8); }
static int8_t bmIn(void *d, void *bm) { int b = bucketOf(dvOf((u8 *)d)); return (((u8 *)bm)[b / 8] >> (b % 8)) & 1; }
static void bmRange(void *mn, void *mx, void *bm) {
    int lo = mn ? bucketOf(dvOf((u8 *)mn)) : 0, hi = mx ? bucketOf(dvOf((u8 *)mx)) : 8 * C.bm - 1;
    memset(bm, 0, C.bm);
    for (int b = lo; b <= hi; b++) ((u8 *)bm)[b / 8] |= 1 << (b % 8);
}

// ------------------------------------------------------------------ counters
static u64 nTrans, nStates, nObs, nApi, nCrash, nFault, nRecover, nFaultReported, nLost, nExactVar, nAbsent, nFound, nIters, nSkippedByIdx;
static std::vector<std::string> samples;
static std::string obsSet = "";
static bool has(char c) { return obsSet.find(c) != std::string::npos; }
static bool digestMode = false;
static FILE *digestFile = nullptr;
static u64 digestAcc = 0;
static void dig(u64 v) { digestAcc = (digestAcc ^ v) * 0x9E3779B97F4A7C15ull; digestAcc ^= digestAcc >> 31; }
static void digb(const void *p, size_t n) { if (digestMode) dig(hash_bytes(p, n, 1)); }

static bool crashArmed = false;
// One guarded API call; power cut -> CrashEx, everything else abnormal -> violation.
template <class F> static void api(const char *name, F f) {
    nApi++; stack_fill();
    int k = guarded(f);
    if (k == SK_CRASHPOINT && crashArmed) throw CrashEx{};
    if (k) vio("%s: %s", name, stopMsg);
}
static bool isQuery(const char *n) { for (const char *q : {"embedDBGet", "embedDBNext", "embedDBInitIterator", "embedDBCloseIterator", "embedDBVarDataStreamRead"}) if (!strncmp(n, q, strlen(q))) return true; return false; }
static void afterCall(const char *name) {
    std::string why;
    if (!arena_check(why)) vio("%s: memory outside its buffers was written: %s", name, why.c_str());
    if (has('X') && !contractErr.empty()) vio("%s: %s", name, contractErr.c_str());
    if (has('Q') && isQuery(name)) {
        // looking for variable data may first write out the buffered page of variable data, nothing else
        bool mayFlushVar = strstr(name, "Var") && !strstr(name, "Stream");
        int w = 0;
        for (auto &o : oplog) {
            if (o.type == OT_READ) continue;
            if (mayFlushVar && o.dev == 2 && (o.type == OT_FLUSH || o.type == OT_ERASE || (o.type == OT_WRITE && !w++))) continue;
            vio("%s is a query but %s the %s file", name, o.type == OT_WRITE ? "wrote a page of" : o.type == OT_ERASE ? "erased pages of" : o.type == OT_FLUSH ? "flushed" : o.type == OT_OPEN ? "opened" : "closed", o.dev == 0 ? "data" : o.dev == 1 ? "index" : "variable data");
        }
    }
}

// ------------------------------------------------------------------ database setup
static int baseAllocsOf[2];
#define baseAllocs baseAllocsOf[side]
static embedDBState *db_alloc(bool reset) {
    embedDBState *st = (embedDBState *)mc_malloc(sizeof(embedDBState));
    st->keySize = C.k; st->dataSize = C.d; st->pageSize = C.ps; st->bufferSizeInBlocks = C.bufs();
    st->buffer = mc_malloc((size_t)C.bufs() * C.ps);
    st->numDataPages = C.N; st->eraseSizeInPages = C.B;
    st->fileInterface = &mcFI; st->dataFile = &W->dev[0];
    if (!C.bin) st->numSplinePoints = C.spl;
    st->parameters = C.flags() | (reset ? EMBEDDB_RESET_DATA : 0);
    if (C.idx) { st->numIndexPages = C.ip; st->indexFile = &W->dev[1]; }
    if (C.var) { st->numVarPages = C.vp; st->varFile = &W->dev[2]; }
    if (C.idx || C.bmap) {
        st->bitmapSize = C.bm;
        if (C.ownbm) { st->updateBitmap = bmUpd; st->inBitmap = bmIn; st->buildBitmapFromRange = bmRange; }
        else if (C.bm == 1) { st->updateBitmap = updateBitmapInt8; st->inBitmap = inBitmapInt8; st->buildBitmapFromRange = buildBitmapInt8FromRange; }
        else if (C.bm == 2) { st->updateBitmap = updateBitmapInt16; st->inBitmap = inBitmapInt16; st->buildBitmapFromRange = buildBitmapInt16FromRange; }
        else { st->updateBitmap = updateBitmapInt64; st->inBitmap = inBitmapInt64; st->buildBitmapFromRange = buildBitmapInt64FromRange; }
    }
    st->compareKey = C.owncmp ? cmpUs[C.k] : C.k == 8 ? int64Comparator : int32Comparator;
    st->compareData = C.owncmp || C.d < 4 ? cmpD : int32Comparator;
    return st;
}
static void clearStats() {
    if (W->st) { W->st->numReads = W->st->numWrites = W->st->numIdxReads = W->st->numIdxWrites = W->st->bufferHits = 0; }
}
static void resetCounters() { for (auto &d : W->dev) d.reads = 0; W->totalAllocs = 0; }
static int initRc(bool reset) {
    embedDBState *st = W->st = db_alloc(reset);
    contractErr.clear();
    int rc = 99;
    api("embedDBInit", [&] { rc = embedDBInit(st, C.err); });
    afterCall("embedDBInit");
    if (has('B') && !failHappened) {
        std::vector<u32> cnt[3];
        for (int d = 0; d < 3; d++) cnt[d].resize(W->dev[d].nPages);
        for (auto &o : oplog) if (o.type == OT_READ && o.a < cnt[o.dev].size() && ++cnt[o.dev][o.a] > 3) vio("embedDBInit read page %u of the %s file more than three times", o.a, o.dev == 0 ? "data" : o.dev == 1 ? "index" : "variable data");
    }
    if (has('S') && rc == 0 && (st->numReads || st->numWrites || st->numIdxReads || st->numIdxWrites)) vio("statistics are not zero after initialisation");
    digb(&rc, 4);
    baseAllocs = W->liveAllocs;
    return rc;
}
static void db_fresh1() {
    for (auto &d : W->dev) { d.exists = d.isOpen = 0; d.length = 0; d.writes = d.erases = d.reads = d.unsynced = 0; dev_wipe(d); memset((u8 *)W + d.off, 0, (u64)d.nPages * d.pageSize); }
    arena_reset(); memset(&M(), 0, sizeof(Model));
    int rc = initRc(true);
    if (rc) vio("embedDBInit on a valid configuration with reset returned %d", rc);
    M().open = 1; M().avail = C.cap();
    clearStats(); resetCounters();
}

static void db_fresh() { for (int i = W2[0] ? 1 : 0; i >= 0; i--) { sel(i); db_fresh1(); } }

// ------------------------------------------------------------------ model
static u32 liveFirst() { Model &m = M(); return m.minPage < m.nextPage ? m.pageFirst[m.minPage % PRING] : m.bufFirst; }
static void modelPageWrite() {
    Model &m = M();
    if (C.rlc) {
        m.avail--; m.pageFirst[m.nextPage % PRING] = m.bufFirst; m.nextPage++; m.bufFirst = m.n;
        if (m.nextPage % C.B == 0 && m.avail <= 0) { m.minPage += C.B; m.avail += C.B; }
    } else {
        if (m.avail <= 0) { m.minPage += C.B; m.avail += C.B; }
        m.avail--; m.pageFirst[m.nextPage % PRING] = m.bufFirst; m.nextPage++; m.bufFirst = m.n;
    }
}
static bool varSeqLive(u32 s) { Dev &d = W->dev[2]; for (u32 p = 0; p < d.nPages; p++) if (d.prog[p] && d.seq[p] == s) return true; return false; }
// first variable data page write that is still there; a block whose erase was interrupted counts as reclaimed
static u32 varE() { Dev &d = W->dev[2]; u32 s = d.writes; while (s > 0 && varSeqLive(s - 1)) s--; return s && C.B > 1 ? std::min<u32>(d.writes, (s + C.B - 1) / C.B * C.B) : s; }
static bool mustHaveVar(const Rec &r) { return r.vLo >= M().varFloor && r.vLo >= varE(); }

// ------------------------------------------------------------------ operations
static u8 kb[16], db_[256], out[256 + 32];
static std::vector<u8> vbuf;
static u8 *exactBuf(int n, const u8 *src) { static std::vector<u8 *> pool; (void)pool; u8 *p = (u8 *)malloc(n ? n : 1); if (src) memcpy(p, src, n); return p; }

static void checkStats(const char *name, u32 modelPages) {
    embedDBState *st = W->st; if (!has('S') || !st) return;
    u32 r = 0, w = 0, ir = 0, iw = 0;
    for (auto &o : oplog) if (o.ok) {
        if (o.type == OT_READ) (o.dev == 1 ? ir : r)++;
        if (o.type == OT_WRITE) { if (o.dev == 1) iw++; else if (!(C.rlc && o.dev == 0)) w++; }
    }
    if (C.rlc) w += modelPages;
    Model &m = M(); m.statsR += r; m.statsW += w; m.statsIR += ir; m.statsIW += iw;
    if (st->numReads != r || st->numWrites != w || st->numIdxReads != ir || st->numIdxWrites != iw)
        vio("%s: statistics reads/writes/index reads/index writes = %u/%u/%u/%u but the device performed %u/%u/%u/%u", name, st->numReads, st->numWrites, st->numIdxReads, st->numIdxWrites, r, w, ir, iw);
}
static void stepDone(const char *name, u32 modelPages = 0) {
    afterCall(name); checkStats(name, modelPages);
    if (digestMode && W->st) { dig(W->st->numWrites); dig(W->st->numIdxWrites); }   // the number of reads is not behaviour; obs S compares the counters with the device in each build
    clearStats();
}
// A call may not claim success when the device refused to write, erase or flush on its behalf.
static void checkClaim(const char *name, int rc) {
    if (failWrote && rc == 0) vio("%s returned success although the device reported a failed write, erase or flush", name);
}
static void checkLeak(const char *name) {
    if (!has('L') || !W->st) return;
    if ((int)W->liveAllocs > baseAllocs + 12) vio("%s: %d heap blocks are live, %d after initialisation (memory use grows)", name, (int)W->liveAllocs, baseAllocs);
}

static Rec mkRec(u64 key, int32_t dv, int vlen) { Rec r; memset(&r, 0, sizeof r); r.key = key; r.dv = dv; r.vlen = vlen; r.seed = (u32)mix(key * 131 + (u32)dv * 7 + vlen + 5); return r; }
static u64 lastKey() { return M().recs[M().n - 1].key; }
static u64 kmask() { return C.k == 8 ? ~0ull : (1ull << (8 * C.k)) - 1; }
static u64 kmaxAllowed() { return C.owncmp ? kmask() : (kmask() >> 1); }
// the newest key plus d, or the largest possible key
static u64 keyUp(u64 d) { u64 l = lastKey(); return d > kmaxAllowed() - l ? kmaxAllowed() : l + d; }
static int32_t defDv() { u32 i = M().puts; return C.vbase + (int)((i / 2) % C.nb) * C.vstep + (int)(i % C.vstep); }

// What a query may read: the page reads of the data and variable data file in this call, against what the layout of the pages makes necessary
static u32 devReads(int dev) { u32 r = 0; for (auto &o : oplog) if (o.dev == dev && o.type == OT_READ) r++; return r; }
static void budgetGet(const char *nm, u64 key) {
    if (!has('B') || failHappened) return;
    Model &m = M(); u32 P = m.nextPage - m.minPage, r = devReads(0), most;
    bool buf = m.bufFirst < m.n;
    if (!P || (buf && key >= m.recs[m.bufFirst].key)) most = 0;
    else if (C.bin) { most = 0; while (P) { most++; P >>= 1; } }
    else most = std::min<u32>(P, 2 * C.err + 1);
    if (r > most) vio("%s(%llu) read %u data pages; %u suffice (%u data pages, %s)", nm, (unsigned long long)key, r, most, m.nextPage - m.minPage, C.bin ? "binary search" : "learned index");
    if (devReads(1)) vio("%s(%llu) read the index file", nm, (unsigned long long)key);
    if (devReads(2) > 2) vio("%s(%llu) read %u pages of variable data to find its length", nm, (unsigned long long)key, devReads(2));
}
// put; vlen: -2 embedDBPut, -1 embedDBPutVar(NULL), >=0 variable data
static void doPut(u64 key, int32_t dv, int vlen) {
    Model &m = M();
    if (!C.var) vlen = -2;
    Rec r = mkRec(key, dv, vlen < 0 ? -1 : vlen);
    bool ok = m.n == 0 || key > lastKey();
    r.vLo = W->dev[2].writes;
    keyBytes(key, kb); dataBytes(r, db_);
    u8 *ek = exactBuf(C.k, kb), *ed = exactBuf(C.d, db_), *ev = nullptr;
    if (vlen >= 0) { ev = exactBuf(vlen, nullptr); for (int i = 0; i < vlen; i++) ev[i] = varByte(r.seed, i); }
    int rc = 99; embedDBState *st = W->st;
    const char *nm = vlen == -2 ? "embedDBPut" : "embedDBPutVar";
    struct Fr { u8 *a, *b, *c; ~Fr() { free(a); free(b); free(c); } } fr{ek, ed, ev};
    api(nm, [&] { rc = vlen == -2 ? embedDBPut(st, ek, ed) : embedDBPutVar(st, ek, ed, ev, vlen < 0 ? 0 : vlen); });
    digb(&rc, 4);
    if (memcmp(ek, kb, C.k) || memcmp(ed, db_, C.d)) vio("%s modified the caller's key or data", nm);
    if (failHappened && rc != 0) m.dead = 1;
    checkClaim(nm, rc);
    u32 before = m.nextPage;
    if (!m.dead) {
        if (ok && rc != 0) vio("%s of key %llu (greater than every accepted key) returned %d", nm, (unsigned long long)key, rc);
        if (!ok && rc == 0) vio("%s of key %llu, not greater than the last accepted key %llu, was accepted", nm, (unsigned long long)key, (unsigned long long)lastKey());
        if (ok) {
            if (m.n >= (u32)MAXR) { fprintf(stderr, "model too small\n"); exit(3); }
            if (m.pendShift && m.bufFirst == m.n) { m.pendShift = 0; m.minPage += C.B; m.avail += C.B; }
            if ((int)(m.n - m.bufFirst) >= C.maxRec()) modelPageWrite();
            r.vHi = W->dev[2].writes;
            for (u32 q = 0; q < m.orphN; q++) if (m.orphKey[q] >= r.key && m.orphLo[q] < r.vLo) r.vLo = m.orphLo[q];
            m.recs[m.n++] = r; m.puts++;
        }
    }
    stepDone(nm, (m.dead ? st->nextDataPageId : m.nextPage) - before);
    checkLeak(nm);
}
static void doFlush() {
    Model &m = M(); int rc = 99; embedDBState *st = W->st;
    api("embedDBFlush", [&] { rc = embedDBFlush(st); });
    digb(&rc, 4);
    if (failHappened && rc != 0) m.dead = 1;
    checkClaim("embedDBFlush", rc);
    u32 before = m.nextPage;
    if (!m.dead) {
        if (rc != 0) vio("embedDBFlush returned %d", rc);
        if (m.n > m.bufFirst) modelPageWrite();
        if (has('Y')) for (auto &d : W->dev) if (d.unsynced) vio("embedDBFlush succeeded but left %u page writes of the %s file not flushed to the device", d.unsynced, d.id == 0 ? "data" : d.id == 1 ? "index" : "variable data");
    }
    stepDone("embedDBFlush", (m.dead ? st->nextDataPageId : m.nextPage) - before);
    checkLeak("embedDBFlush");
}
static u8 *guardedOut(int n) { u8 *p = (u8 *)malloc(n + 0 ? n : 1); memset(p, 0x3C, n ? n : 1); return p; }
static const char *where(u32 i) { return i >= M().bufFirst ? "buffered" : "stored"; }

// lookup of an arbitrary key
static void doGet(u64 key) {
    Model &m = M(); embedDBState *st = W->st;
    keyBytes(key, kb);
    u8 *ek = exactBuf(C.k, kb), *eo = guardedOut(C.d); struct Fr { u8 *a, *b; ~Fr() { free(a); free(b); } } fr{ek, eo};
    int rc = 99;
    api("embedDBGet", [&] { rc = embedDBGet(st, ek, eo); });
    nObs++;
    if (digestMode) { dig(rc); if (rc == 0) digb(eo, C.d); }
    u32 lo = liveFirst(), a = lo, b = m.n;
    while (a < b) { u32 c = (a + b) / 2; if (m.recs[c].key < key) a = c + 1; else b = c; }
    bool present = a < m.n && m.recs[a].key == key;
    if (failHappened && rc != 0) { nFaultReported++; }
    else if (present) {
        nFound++;
        if (rc != 0) vio("embedDBGet(%llu) returned %d but the record is retained (%s, record %u of %u..%u)", (unsigned long long)key, rc, where(a), a, lo, m.n - 1);
        dataBytes(m.recs[a], db_);
        if (memcmp(eo, db_, C.d)) vio("embedDBGet(%llu) returned wrong data for a %s record", (unsigned long long)key, where(a));
    } else {
        nAbsent++;
        if (rc == 0) vio("embedDBGet(%llu) reported success but no such record is retained (live keys %llu..%llu)", (unsigned long long)key, m.n > lo ? (unsigned long long)m.recs[lo].key : 0ull, m.n ? (unsigned long long)lastKey() : 0ull);
    }
    budgetGet("embedDBGet", key);
    stepDone("embedDBGet"); checkLeak("embedDBGet");
}

// read a stream to its end with the given chunk size and compare
static void readStream(embedDBVarDataStream *s, const Rec &r, int chunk) {
    embedDBState *st = W->st; u32 pos = 0; u8 *b = (u8 *)malloc(chunk); struct Fr { u8 *p; ~Fr() { free(p); } } fr{b};
    std::map<u32, u32> seen; bool budget = has('B');
    for (int guard = 0; guard < 100000; guard++) {
        u32 got = 0; memset(b, 0x3C, chunk);
        api("embedDBVarDataStreamRead", [&] { got = embedDBVarDataStreamRead(st, s, b, chunk); });
        if (budget && !failHappened) for (auto &o : oplog) if (o.type == OT_READ) {
            if (o.dev != 2) vio("reading variable data of key %llu read the %s file", (unsigned long long)r.key, o.dev ? "index" : "data");
            if (++seen[o.a] > 1) vio("reading variable data of key %llu in chunks of %d read page %u of the variable data file again", (unsigned long long)r.key, chunk, o.a);
        }
        if (digestMode) { dig(got); digb(b, got <= (u32)chunk ? got : 0); }
        bool shortRead = failHappened && got < std::min<u32>(chunk, r.vlen - pos);   // a failed device: fewer bytes, but the right ones
        u32 want = std::min<u32>(chunk, r.vlen - pos);
        if (got != want && !shortRead) vio("variable data of key %llu: read of %d bytes at position %u of %d returned %u bytes", (unsigned long long)r.key, chunk, pos, r.vlen, got);
        for (u32 i = 0; i < got; i++) if (b[i] != varByte(r.seed, pos + i)) vio("variable data of key %llu: byte %u of %d is wrong (chunk size %d)", (unsigned long long)r.key, pos + i, r.vlen, chunk);
        for (int i = got; i < chunk; i++) if (b[i] != 0x3C) vio("variable data read wrote past the bytes it reported");
        stepDone("embedDBVarDataStreamRead");
        if (shortRead) { nFaultReported++; break; }
        if (got == 0) break;
        pos += got;
    }
}
static void checkVarOutcome(const char *nm, const Rec &r, bool lost, embedDBVarDataStream *s, bool isNext) {
    // isNext: embedDBNextVar cannot distinguish lost from absent
    if (r.vlen < 0) {
        if (s) vio("%s: key %llu was stored without variable data but a stream was returned", nm, (unsigned long long)r.key);
        if (lost) vio("%s: key %llu was stored without variable data but reported as lost", nm, (unsigned long long)r.key);
        return;
    }
    if (!s) {
        if (!lost && !isNext) vio("%s: key %llu has variable data but none was returned", nm, (unsigned long long)r.key);
        if (mustHaveVar(r)) vio("%s: variable data of key %llu reported as lost although its pages were not reclaimed (written at %u..%u, oldest live var page write %u, floor %u)", nm, (unsigned long long)r.key, r.vLo, r.vHi, varE(), M().varFloor);
        nLost++;
        return;
    }
    if ((int)s->totalBytes != r.vlen) vio("%s: variable data of key %llu has length %u instead of %d", nm, (unsigned long long)r.key, s->totalBytes, r.vlen);
    nExactVar++;
}
static u64 lastVarOutcome;   // for agreement between lookup and iteration
static void doGetVar(u32 idx, int chunk) {
    Model &m = M(); embedDBState *st = W->st; Rec r = m.recs[idx];
    keyBytes(r.key, kb); u8 *ek = exactBuf(C.k, kb), *eo = guardedOut(C.d); struct Fr { u8 *a, *b; ~Fr() { free(a); free(b); } } fr{ek, eo};
    embedDBVarDataStream *s = nullptr; int rc = 99;
    api("embedDBGetVar", [&] { rc = embedDBGetVar(st, ek, eo, &s); });
    if (digestMode) { dig(rc); dig(s ? s->totalBytes : 77); }
    nObs++;
    if (failHappened && rc == -1) { nFaultReported++; stepDone("embedDBGetVar"); return; }
    if (rc != 0 && rc != 1) vio("embedDBGetVar(%llu) returned %d for a retained %s record", (unsigned long long)r.key, rc, where(idx));
    if (rc == 1 && s) vio("embedDBGetVar(%llu) reported lost data and returned a stream", (unsigned long long)r.key);
    dataBytes(r, db_);
    if (memcmp(eo, db_, C.d)) vio("embedDBGetVar(%llu) returned wrong fixed data for a %s record", (unsigned long long)r.key, where(idx));
    stepDone("embedDBGetVar");
    budgetGet("embedDBGetVar", r.key);
    checkVarOutcome("embedDBGetVar", r, rc == 1, s, false);
    lastVarOutcome = s ? 2 : rc == 1 ? 1 : 0;
    if (s) { readStream(s, r, chunk); mc_free(s); }
    checkLeak("embedDBGetVar");
}
static void doGetVarAbsent(u64 key) {
    embedDBState *st = W->st; keyBytes(key, kb); u8 *ek = exactBuf(C.k, kb), *eo = guardedOut(C.d); struct Fr { u8 *a, *b; ~Fr() { free(a); free(b); } } fr{ek, eo};
    embedDBVarDataStream *s = nullptr; int rc = 99;
    api("embedDBGetVar", [&] { rc = embedDBGetVar(st, ek, eo, &s); });
    if (digestMode) dig(rc);
    if (rc == 0 || s) vio("embedDBGetVar(%llu) of an absent key returned %d", (unsigned long long)key, rc);
    budgetGet("embedDBGetVar", key); stepDone("embedDBGetVar"); checkLeak("embedDBGetVar"); nAbsent++;
}

// ------------------------------------------------------------------ iterators
struct Bounds { bool hkmin = false, hkmax = false, hdmin = false, hdmax = false; u64 kmin = 0, kmax = 0; int32_t dmin = 0, dmax = 0; };
static bool matches(const Rec &r, const Bounds &b) {
    return !(b.hkmin && r.key < b.kmin) && !(b.hkmax && r.key > b.kmax) && !(b.hdmin && r.dv < b.dmin) && !(b.hdmax && r.dv > b.dmax);
}
static std::string bstr(const Bounds &b) {
    char t[160]; snprintf(t, sizeof t, "key[%s,%s] data[%s,%s]", b.hkmin ? std::to_string(b.kmin).c_str() : "-", b.hkmax ? std::to_string(b.kmax).c_str() : "-", b.hdmin ? std::to_string(b.dmin).c_str() : "-", b.hdmax ? std::to_string(b.dmax).c_str() : "-"); return t;
}
static u32 rd32(const u8 *b) { return b[0] | b[1] << 8 | b[2] << 16 | (u32)b[3] << 24; }
// What an iterator may read: every data page at most once; nothing behind the first page that starts above the greatest key asked for;
// with the learned index only 2 * error + 1 pages that end below the smallest key; no page whose bitmap, stored in the index, excludes it.
struct IterBudget {
    std::vector<u32> cnt; u32 idx = 0; bool bad = false;
    IterBudget() : cnt(C.N) {}
    void add() { for (auto &o : oplog) if (o.type == OT_READ) { if (o.dev == 0) { if (o.a < cnt.size()) cnt[o.a]++; } else if (o.dev == 1) idx++; } }
    void judge(const char *nm, const Bounds &b) {
        Model &m = M(); u32 below = 0, above = 0, P = m.nextPage - m.minPage; embedDBState *st = W->st;
        std::vector<u32> phys(C.N, ~0u);
        u32 nIdx = C.idx ? st->nextIdxPageId - st->minIndexPageId : 0, lg = 1;
        for (u32 x = nIdx; x; x >>= 1) lg++;
        for (u32 p = m.minPage; p < m.nextPage; p++) {
            u32 c = cnt[p % C.N]; phys[p % C.N] = p;
            u32 first = m.pageFirst[p % PRING], end = p + 1 < m.nextPage ? m.pageFirst[(p + 1) % PRING] : m.bufFirst;
            if (c > 1) vio("%s with bounds %s read data page %u %u times", nm, bstr(b).c_str(), p, c);
            if (!c) continue;
            if (b.hkmin && m.recs[end - 1].key < b.kmin) below++;
            if (b.hkmax && m.recs[first].key > b.kmax && !(b.hkmin && m.recs[end - 1].key < b.kmin)) above++;
        }
        for (u32 p = 0; p < (u32)C.N; p++) if (cnt[p] && phys[p] == ~0u) vio("%s with bounds %s read page %u of the data file, which holds nothing", nm, bstr(b).c_str(), p);
        if (above > 1) vio("%s with bounds %s read %u pages that start above the greatest key", nm, bstr(b).c_str(), above);
        if (!C.bin && below > 2 * (u32)C.err + 1) vio("%s with bounds %s read %u pages that end below the smallest key (%u pages, error %d)", nm, bstr(b).c_str(), below, P, C.err);
        if (idx && !((b.hdmin || b.hdmax) && C.bmap && C.idx)) vio("%s with bounds %s read the index", nm, bstr(b).c_str());
        if (idx > nIdx + lg) vio("%s with bounds %s read %u index pages of %u", nm, bstr(b).c_str(), idx, nIdx);
        if (C.idx && st->minIndexPageId && nIdx + C.B < (u32)C.ip) vio("the index covers only %u of its %d pages (%u..%u)", nIdx, C.ip, st->minIndexPageId, st->nextIdxPageId);
        if (!C.idx || !C.bmap || !C.ownbm || !(b.hdmin || b.hdmax)) return;
        int lo = b.hdmin ? bucketOf(b.dmin) : 0, hi = b.hdmax ? bucketOf(b.dmax) : 8 * C.bm - 1;
        for (u32 q = st->minIndexPageId; q < st->nextIdxPageId; q++) {
            const u8 *ib = dev_page(W->dev[1], q % C.ip); u32 n = ib[4] | ib[5] << 8, f = rd32(ib + 8);
            for (u32 p = f; p < f + n; p++) if (p >= m.minPage && p < m.nextPage) {
                u32 first = m.pageFirst[p % PRING], end = p + 1 < m.nextPage ? m.pageFirst[(p + 1) % PRING] : m.bufFirst; bool hit = false;
                for (u32 r = first; r < end; r++) { int k = bucketOf(m.recs[r].dv); if (k >= lo && k <= hi) hit = true; }
                if (!hit && cnt[p % C.N]) vio("%s with bounds %s read data page %u, which the index excludes", nm, bstr(b).c_str(), p);
                if (!hit) nSkippedByIdx++;
            }
        }
    }
};
static void runIter(const Bounds &b, bool withVar = false, int chunk = 7, bool interleave = false) {
    Model &m = M(); embedDBState *st = W->st;
    u8 kmn[8], kmx[8], dmn[256], dmx[256]; Rec t{};
    keyBytes(b.kmin, kmn); keyBytes(b.kmax, kmx); t.dv = b.dmin; dataBytes(t, dmn); t.dv = b.dmax; dataBytes(t, dmx);
    embedDBIterator it; memset(&it, heapFill, sizeof it);
    it.minKey = b.hkmin ? kmn : nullptr; it.maxKey = b.hkmax ? kmx : nullptr; it.minData = b.hdmin ? dmn : nullptr; it.maxData = b.hdmax ? dmx : nullptr;
    api("embedDBInitIterator", [&] { embedDBInitIterator(st, &it); });
    stepDone("embedDBInitIterator");
    nIters++; nObs++;
    u8 *ok = guardedOut(C.k), *od = guardedOut(C.d); struct Fr { u8 *a, *b; ~Fr() { free(a); free(b); } } fr{ok, od};
    u32 i = liveFirst(); bool faulted = false; bool budget = has('B') && !interleave; IterBudget bud;
    if (budget) bud.add();
    for (;;) {
        while (i < m.n && !matches(m.recs[i], b)) i++;
        int rc = 99; embedDBVarDataStream *s = nullptr;
        const char *nm = withVar ? "embedDBNextVar" : "embedDBNext";
        api(nm, [&] { rc = withVar ? embedDBNextVar(st, &it, ok, od, &s) : embedDBNext(st, &it, ok, od); });
        if (digestMode) { dig(rc); if (rc == 1) { digb(ok, C.k); digb(od, C.d); dig(s ? s->totalBytes : 5); } }
        if (budget) bud.add();
        if (failHappened && rc != 1) { nFaultReported++; faulted = true; stepDone(nm); break; }
        if (rc == 0) {
            if (i < m.n) vio("%s with bounds %s ended but retained record %llu (%s) was not returned", nm, bstr(b).c_str(), (unsigned long long)m.recs[i].key, where(i));
            stepDone(nm);
            break;
        }
        if (rc != 1) vio("%s returned %d", nm, rc);
        u64 gk = keyVal(ok);
        if (i >= m.n) vio("%s with bounds %s returned key %llu after the last matching record", nm, bstr(b).c_str(), (unsigned long long)gk);
        if (gk != m.recs[i].key) vio("%s with bounds %s returned key %llu, expected %llu (%s)", nm, bstr(b).c_str(), (unsigned long long)gk, (unsigned long long)m.recs[i].key, where(i));
        dataBytes(m.recs[i], db_);
        if (memcmp(od, db_, C.d)) vio("%s with bounds %s returned wrong data for key %llu (%s)", nm, bstr(b).c_str(), (unsigned long long)gk, where(i));
        stepDone(nm);
        if (withVar) {
            checkVarOutcome(nm, m.recs[i], false, s, true);
            if (s) { readStream(s, m.recs[i], chunk); mc_free(s); }
            if (interleave) { u32 lf = liveFirst(); doGetVar(lf + (i * 7 + 3) % (m.n - lf), 64); }
        } else if (interleave) { u32 lf = liveFirst(); doGet(m.recs[lf + (i * 7 + 3) % (m.n - lf)].key); }
        i++;
    }
    if (!faulted) {   // the end is sticky
        int rc = 99; embedDBVarDataStream *s = nullptr;
        api("embedDBNext", [&] { rc = withVar ? embedDBNextVar(st, &it, ok, od, &s) : embedDBNext(st, &it, ok, od); });
        if (rc != 0 && !failHappened) vio("iterator with bounds %s returned another record after reporting the end", bstr(b).c_str());
        if (budget) { bud.judge(withVar ? "embedDBNextVar" : "embedDBNext", b); }
        stepDone("embedDBNext");
    }
    api("embedDBCloseIterator", [&] { embedDBCloseIterator(&it); });
    stepDone("embedDBCloseIterator"); checkLeak("iterator");
}
static std::vector<u64> keyCands(bool small) {
    Model &m = M(); std::vector<u64> v; u32 lo = liveFirst();
    if (m.n == 0) { v = {0, C.key0, kmaxAllowed()}; return v; }
    auto add = [&](u64 k) { if (k <= kmaxAllowed() && std::find(v.begin(), v.end(), k) == v.end()) v.push_back(k); };
    u32 nl = m.n - lo;
    if (!nl) { add(lastKey()); add(0); return v; }
    u64 f = m.recs[lo].key, l = lastKey();
    add(m.recs[lo + nl / 2].key); add(m.recs[lo + nl / 2].key + 1);
    if (f > 0) add(f - 1);
    add(l + 1);
    if (m.bufFirst < m.n) { add(m.recs[m.bufFirst].key); if (m.bufFirst > lo) add(m.recs[m.bufFirst - 1].key); }
    if (!small) { add(f); add(l); add(0); add(kmaxAllowed()); add(m.recs[lo + nl / 3].key); if (lo > 0) add(m.recs[lo - 1].key); if (m.minPage + 1 < m.nextPage) add(m.recs[m.pageFirst[(m.minPage + 1) % PRING]].key); }
    return v;
}
static void obsRanges(bool small) {
    Bounds b; runIter(b);
    auto ks = keyCands(small);
    for (u64 a : ks) { Bounds x; x.hkmin = true; x.kmin = a; runIter(x); Bounds y; y.hkmax = true; y.kmax = a; runIter(y); }
    for (u64 a : ks) for (u64 c : ks) { Bounds x; x.hkmin = x.hkmax = true; x.kmin = a; x.kmax = c; runIter(x); }
}
static void obsData(bool small) {
    std::vector<int32_t> ds; for (int i = 0; i < C.nb; i++) { ds.push_back(C.vbase + i * C.vstep); if (!small) ds.push_back(C.vbase + i * C.vstep + C.vstep - 1); }
    ds.push_back(C.vbase - 1); 
    if (!small) ds.push_back(C.vbase + C.nb * C.vstep + 3);
    for (int32_t a : ds) { Bounds x; x.hdmin = true; x.dmin = a; runIter(x); Bounds y; y.hdmax = true; y.dmax = a; runIter(y); }
    for (int32_t a : ds) for (int32_t c : ds) if (c >= a - C.vstep && (c - a <= C.vstep || !small)) { Bounds x; x.hdmin = x.hdmax = true; x.dmin = a; x.dmax = c; runIter(x); }
    auto ks = keyCands(true);
    for (u64 k : ks) for (int i = 0; i < C.nb; i += 2) { Bounds x; x.hdmin = x.hdmax = true; x.dmin = C.vbase + i * C.vstep; x.dmax = x.dmin + C.vstep - 1; x.hkmin = true; x.kmin = k; runIter(x); x.hkmin = false; x.hkmax = true; x.kmax = k; runIter(x); }
}
static void obsGets() {
    Model &m = M(); u32 lo = liveFirst();
    std::vector<u64> ks;
    for (u32 i = lo > 4 ? lo - 4 : 0; i < m.n; i++) {
        ks.push_back(m.recs[i].key);
        if (m.recs[i].key < kmaxAllowed() && (i + 1 >= m.n || m.recs[i + 1].key > m.recs[i].key + 1)) ks.push_back(m.recs[i].key + 1);
        if (i + 1 < m.n && m.recs[i + 1].key > m.recs[i].key + 2) ks.push_back(m.recs[i + 1].key - 1);
    }
    if (ks.empty()) ks.push_back(C.key0);
    if (ks[0] > 0) ks.insert(ks.begin(), ks[0] - 1);
    if (ks[0] > 0) ks.insert(ks.begin(), 0);
    if (ks.back() < kmaxAllowed()) ks.push_back(kmaxAllowed());
    for (u64 k : ks) doGet(k);
    for (size_t i = ks.size(); i-- > 0;) doGet(ks[i]);
    // every second key from both ends: jumps between pages
    for (size_t i = 0; i < ks.size(); i++) doGet(i % 2 ? ks[i] : ks[ks.size() - 1 - i]);
}
static Snap obsSnap, obsSnap2;
static void closeDb();
static void endObs(const Snap &s) {   // leaks of the observation show when the database is closed
    if (has('L') && W->st) closeDb();
    snap_load(s);
}
static void obsGetsFresh() {      // every key directly from the state as it is (cache included)
    snap_save(obsSnap2); Model &m = M(); u32 lo = liveFirst(), n = m.n;
    for (u32 i = lo > 1 ? lo - 1 : 0; i < n; i++) { u64 k = M().recs[i].key; doGet(k); endObs(obsSnap2); if (k < kmaxAllowed()) { doGet(k + 1); endObs(obsSnap2); } }
}
static const std::vector<int> obsChunks = {1, 5, 64, 1000, MC_MAXR > 1000 ? 66001 : 1000};
static void obsVarGets() {
    snap_save(obsSnap2); Model &m = M(); u32 lo = liveFirst(), n = m.n;
    for (int c : obsChunks) { for (u32 i = lo; i < n; i++) doGetVar(i, c); endObs(obsSnap2); }
    for (u32 i = n; i-- > lo;) doGetVar(i, 9);
    for (u32 i = lo; i < n; i++) if (M().recs[i].key + 1 < kmaxAllowed() && (i + 1 >= n || M().recs[i + 1].key > M().recs[i].key + 1)) doGetVarAbsent(M().recs[i].key + 1);
    endObs(obsSnap2);
    for (u32 i = M().bufFirst; i < n; i++) { doGetVar(i, 3); doGetVar(n - 1, 1000); endObs(obsSnap2); }
}
static void obsVarIter() {
    snap_save(obsSnap2); Model &m = M();
    Bounds b; runIter(b, true, 7); endObs(obsSnap2);
    runIter(b, true, 1000, true); endObs(obsSnap2);
    if (m.n) {
        auto ks = keyCands(true);
        for (u64 k : ks) { Bounds x; x.hkmin = true; x.kmin = k; runIter(x, true, 64); endObs(obsSnap2); Bounds y; y.hkmax = true; y.kmax = k; runIter(y, true, 64); endObs(obsSnap2); }
    }
}
// ------------------------------------------------------------------ what storage holds, read as raw bytes
static void obsFormat() {
    Model &m = M(); nObs++;
    int hdr = C.header(), bmw = C.idx || C.bmap ? C.bmWidth() : 0;
    for (u32 p = m.minPage; p < m.nextPage; p++) {
        const u8 *b = dev_page(W->dev[0], p % C.N); u32 first = m.pageFirst[p % PRING], end = p + 1 < m.nextPage ? m.pageFirst[(p + 1) % PRING] : m.bufFirst;
        if (!W->dev[0].prog[p % C.N]) vio("data page %u is not on storage", p);
        if (rd32(b) != p) vio("data page %u: its header holds page id %u", p, rd32(b));
        u32 cnt = b[4] | b[5] << 8; if (cnt != end - first) vio("data page %u holds %u records according to its header instead of %u", p, cnt, end - first);
        std::vector<u8> bm(bmw, 0), mnD, mxD; u8 kk[16], dd[256];
        for (u32 i = first; i < end; i++) {
            const u8 *r = b + hdr + (i - first) * C.rec(); keyBytes(m.recs[i].key, kk); dataBytes(m.recs[i], dd);
            if (memcmp(r, kk, C.k) || memcmp(r + C.k, dd, C.d)) vio("data page %u: record %u is not key %llu with its data", p, i - first, (unsigned long long)m.recs[i].key);
            if (C.var) {
                u32 loc = rd32(r + C.k + C.d); int vl = m.recs[i].vlen;
                if (vl < 0 && loc != 0xFFFFFFFFu) vio("data page %u: record %u without variable data does not hold the marker for none", p, i - first);
                if (vl > 0 && mustHaveVar(m.recs[i])) {
                    if (loc == 0xFFFFFFFFu) vio("data page %u: record %u with variable data holds the marker for none", p, i - first);
                    u64 total = (u64)C.vp * C.ps, pos = loc % total; u8 len[4];
                    if (pos % C.ps < 4u + C.k) vio("data page %u: the variable data location of record %u is inside a page header", p, i - first);
                    for (int j = -4; j < vl; j++) {
                        if (pos % C.ps == 0) pos = pos % total + 4 + C.k;
                        const u8 *q = dev_page(W->dev[2], (pos % total) / C.ps);
                        if (pos % C.ps == 4u + C.k || j == -4) {
                            if (rd32(q) % C.vp != (pos % total) / C.ps) vio("variable data page %llu holds page id %u", (unsigned long long)(pos % total / C.ps), rd32(q));
                            if (keyVal(q + 4) < m.recs[i].key) vio("variable data page %u holds bytes of key %llu but its header says the largest key is %llu", rd32(q), (unsigned long long)m.recs[i].key, (unsigned long long)keyVal(q + 4));
                        }
                        u8 x = q[pos % C.ps];
                        if (j < 0) { len[j + 4] = x; if (j == -1 && (int)rd32(len) != vl) vio("variable data of key %llu: length %u on storage instead of %d", (unsigned long long)m.recs[i].key, rd32(len), vl); }
                        else if (x != varByte(m.recs[i].seed, j)) vio("variable data of key %llu: byte %d differs on storage", (unsigned long long)m.recs[i].key, j);
                        pos++;
                    }
                }
            }
            if (C.mm) { std::vector<u8> d(dd, dd + C.d); embedDBState *st = W->st; if (i == first) mnD = mxD = d; else { if (st->compareData(d.data(), mnD.data()) < 0) mnD = d; if (st->compareData(d.data(), mxD.data()) > 0) mxD = d; } }
            if (C.bmap) { W->st->updateBitmap(dd, bm.data()); }
        }
        if (C.bmap && memcmp(b + 6, bm.data(), bmw)) vio("data page %u: the bitmap in its header is not that of its records", p);
        if (C.mm) {
            const u8 *h = b + hdr - 2 * C.d - 2 * C.k; u8 k0[16], k1[16]; keyBytes(m.recs[first].key, k0); keyBytes(m.recs[end - 1].key, k1);
            if (memcmp(h, k0, C.k) || memcmp(h + C.k, k1, C.k)) vio("data page %u: minimum or maximum key in its header is wrong", p);
            if (memcmp(h + 2 * C.k, mnD.data(), C.d) || memcmp(h + 2 * C.k + C.d, mxD.data(), C.d)) vio("data page %u: minimum or maximum data in its header is wrong", p);
        }
    }
    if (C.idx) for (u32 q = W->st->minIndexPageId; q < W->st->nextIdxPageId; q++) {
        const u8 *b = dev_page(W->dev[1], q % C.ip); u32 cnt = b[4] | b[5] << 8, first = rd32(b + 8);
        if (rd32(b) != q) vio("index page %u: its header holds page id %u", q, rd32(b));
        if (cnt > (u32)(C.ps - 16) / bmw) vio("index page %u holds %u entries", q, cnt);
        for (u32 i = 0; i < cnt; i++) if (first + i >= m.minPage && first + i < m.nextPage && memcmp(b + 16 + i * bmw, dev_page(W->dev[0], (first + i) % C.N) + 6, bmw)) vio("index page %u: entry %u differs from the bitmap of data page %u", q, i, first + i);
    }
}
static u64 worldHash(World *w);
static void observe1() {
    setAlt();
    if (M().dead || !M().open) return;
    snap_save(obsSnap);
    // with open cursors the leak accounting still holds because cursors stay in the model
    if (has('G')) { obsGets(); endObs(obsSnap); }
    if (has('g')) { obsGetsFresh(); endObs(obsSnap); }
    if (has('I')) { obsRanges(false); endObs(obsSnap); }
    if (has('i')) { obsRanges(true); endObs(obsSnap); }
    if (has('F')) { Bounds b; runIter(b); runIter(b, false, 7, M().n > liveFirst()); endObs(obsSnap); }
    if (has('D')) { obsData(false); endObs(obsSnap); }
    if (has('d')) { obsData(true); endObs(obsSnap); }
    if (has('V') && C.var) { obsVarGets(); endObs(obsSnap); }
    if (has('N') && C.var) { obsVarIter(); endObs(obsSnap); }
    if (has('P')) obsFormat();
    if (has('L')) endObs(obsSnap);
    W->st && (clearStats(), 0);
    resetCounters();
}

static void observe() {
    if (!W2[0]) { observe1(); return; }
    int was = side;
    for (int i = 0; i < 2; i++) { sel(i); u64 h = worldHash(W2[1 - i]); observe1(); if (worldHash(W2[1 - i]) != h) vio("reading one database changed memory or storage that belongs to the other"); }
    sel(was);
}

// ------------------------------------------------------------------ reopen, crash, recovery
static Model preM, postM;         // model before the interrupted operation and after its completion
static void adopt(const Model &P, const Model &Q, const char *nm) {
    Model &m = M(); embedDBState *st = W->st;
    u32 R = st->nextDataPageId, mn = st->minDataPageId;
    if (R < P.nextPage || R > Q.nextPage) vio("%s: %u pages are durable by the model (at most %u), but recovery continues at page %u", nm, P.nextPage, Q.nextPage, R);
    bool adv = R > P.nextPage;
    i64 used = (i64)R - P.minPage; u32 a1 = P.minPage, a2 = P.minPage;
    if (used > C.cap()) { a1 += C.B; a2 += C.B; used -= C.B; }   // the interrupted write reclaimed a block
    if (used == C.cap()) a2 += C.B;                               // recovery may give up the next block
    if (R == 0) { a1 = a2 = mn = 0; }
    if (mn != a1 && mn != a2) vio("%s: recovered pages start at page %u instead of %u (%u pages durable, capacity %d)", nm, mn, a1, R, C.cap());
    bool isP = !adv;
    Model keep = isP ? P : Q;
    u32 n;
    if (!C.rlc) n = keep.bufFirst;
    else {
        n = P.n;
        if (Q.n > P.n) {          // put in flight: may or may not be there
            u8 o[256]; u8 kk[8]; keyBytes(Q.recs[P.n].key, kk); int rc = 99;
            api("embedDBGet", [&] { rc = embedDBGet(st, kk, o); });
            if (rc == 0) { n = P.n + 1; }
            clearStats();
        }
    }
    m = Q;
    m.open = 1; m.dead = 0; m.n = n; m.nextPage = R; m.minPage = mn; m.bufFirst = isP ? P.bufFirst : Q.bufFirst;
    if (m.bufFirst > n) m.bufFirst = n;
    for (u32 p = 0; p < (u32)PRING; p++) m.pageFirst[p] = keep.pageFirst[p];
    m.avail = (i64)C.cap() + mn - R;
    memset(m.cur, 0, sizeof m.cur); memset(&m.str, 0, sizeof m.str);
    if (C.var) {
        Dev &d = W->dev[2]; u32 E = varE(); u32 floor = 0;
        if (d.writes - E == d.nPages) floor = d.writes % d.nPages == 0 ? (E ? E + 1 : 0) : E + C.B + 1;
        else if (E) floor = E + 1;
        u32 f = std::max(P.varFloor, floor);
        for (u32 i = 0; i < n; i++) if (m.recs[i].vlen >= 0 && m.recs[i].vHi >= d.writes) { m.recs[i].vLo = 0; if (!f) f = 1; }
        m.varFloor = f;
        u32 E2 = varE(), k = 0;
        for (u32 q = 0; q < m.orphN; q++) if (m.orphKey[q] > (n ? m.recs[n - 1].key : 0) ) { m.orphKey[k] = m.orphKey[q]; m.orphLo[k++] = m.orphLo[q]; }
        m.orphN = k; (void)E2;
        for (u32 q = n; q < Q.n; q++) if (Q.recs[q].vlen >= 0) {
            bool have = false; for (u32 z = 0; z < m.orphN; z++) if (m.orphKey[z] == Q.recs[q].key) { have = true; if (Q.recs[q].vLo < m.orphLo[z]) m.orphLo[z] = Q.recs[q].vLo; }
            if (!have) { if (m.orphN >= 16) { fprintf(stderr, "too many orphans\n"); exit(3); } m.orphKey[m.orphN] = Q.recs[q].key; m.orphLo[m.orphN++] = Q.recs[q].vLo; }
        }
    }
    resetCounters();
    W->totalAllocs = 0;
    nRecover++;
}
static bool firstAdopt = true;
// bring the database up again over the surviving devices; crashK>=0 cuts power during recovery
static void reopenRaw(int crashK) {
    arena_reset(); W->st = nullptr;
    crashAt = crashK; crashArmed = crashK >= 0;
    struct R { ~R() { crashAt = -1; crashArmed = false; } } r;
    int rc = initRc(false);
    checkClaim("embedDBInit", rc);
    if (rc != 0 && failHappened && failAt >= 0) {   // reported; once the device works again the database must come up
        nFaultReported++; failAt = -1; if (failTypes & 128) { if (W->liveAllocs != 2) vio("embedDBInit failed for lack of memory and left %d heap blocks allocated", (int)W->liveAllocs - 2); }
        dev_powercut(); arena_reset(); W->st = nullptr; rc = initRc(false);
    }
    if (rc != 0) vio("embedDBInit over existing storage returned %d", rc);
}
static int lastInitOps;
static void closeDb() {
    embedDBState *st = W->st;
    if (!st) return;
    for (auto &c : M().cur) if (c.active) { api("embedDBCloseIterator", [&] { embedDBCloseIterator(&c.it); }); c.active = 0; }
    if (M().str.active) { mc_free(M().str.s); M().str.active = 0; }
    api("embedDBClose", [&] { embedDBClose(st); });
    afterCall("embedDBClose");
    if (has('L')) { if (W->liveAllocs != 2) vio("embedDBClose left %d heap blocks allocated", (int)W->liveAllocs - 2); for (auto &d : W->dev) if (d.isOpen) vio("embedDBClose left a file open"); }
    W->st = nullptr;
}
static void doReopen(bool flush) {
    if (flush) doFlush();
    if (M().dead) return;
    Model P = M();
    closeDb();
    dev_powercut();
    reopenRaw(-1); lastInitOps = opCount;
    adopt(P, P, flush ? "flush, close and reopen" : "close and reopen");
    clearStats(); firstAdopt = false;
}
// flush, close and reopen with other choices of what only serves speed: lookup method (1), index (2), size and error bound of the learned index (4), its cleaning (8)
static void doAlt(int bits) {
    doFlush();
    if (M().dead) return;
    M().alt ^= bits; setAlt();
    doReopen(false);
}
// close, remove the files in mask (1 data, 2 index, 4 variable data) and open again: without its data file the database is empty, whatever else is left over
static void doRemove(int mask) {
    Model P = M();
    closeDb(); dev_powercut();
    for (auto &d : W->dev) if (mask >> d.id & 1) { d.exists = 0; d.length = 0; d.writes = d.erases = d.reads = 0; dev_wipe(d); memset((u8 *)W + d.off, 0, (u64)d.nPages * d.pageSize); }
    if (mask & 1) { u8 a = P.alt; memset(&P, 0, sizeof P); P.avail = C.cap(); P.alt = a; }
    M() = P;
    reopenRaw(-1); lastInitOps = opCount;
    if (mask & 1) { Dev &v = W->dev[2]; if (W->st->nextDataPageId || W->st->minDataPageId) vio("a database without a data file starts at page %u", W->st->nextDataPageId); M().open = 1; M().varFloor = 0; (void)v; resetCounters(); }
    else adopt(P, P, "reopen after a file was removed");
    clearStats(); firstAdopt = false;
}

// ------------------------------------------------------------------ cursors
static Bounds cursorBounds(int kind) {
    Model &m = M(); Bounds b; u32 lo = liveFirst();
    if (m.n == lo) return b;
    u32 nl = m.n - lo;
    switch (kind) {
        case 1: b.hkmin = true; b.kmin = m.recs[lo + nl / 2].key; break;
        case 2: b.hkmin = b.hkmax = true; b.kmin = m.recs[lo + nl / 4].key + 1; b.kmax = keyUp(3 * C.gap); break;
        case 3: b.hdmin = b.hdmax = true; b.dmin = C.vbase + C.vstep; b.dmax = C.vbase + 3 * C.vstep; break;
        case 5: b.hdmin = b.hdmax = true; b.dmin = b.dmax = m.recs[lo].dv; break;
        case 6: b.hdmin = b.hdmax = true; b.dmin = b.dmax = m.recs[m.n - 1].dv; break;
        case 4: b.hdmin = true; b.dmin = C.vbase + 2 * C.vstep; b.hkmax = true; b.kmax = keyUp(4 * C.gap); break;
    }
    return b;
}
// bounds memory of open iterators must outlive them: keep in the model blob
struct CurMem { u8 kmn[8], kmx[8], dmn[256], dmx[256]; };
static CurMem curMemOf[2][2];
#define curMem curMemOf[side]
//         // contents are a function of cursor fields, refreshed before each use
static void bindCur(int s) {
    Cursor &c = M().cur[s]; Rec t{}; CurMem &q = curMem[s];
    keyBytes(c.kmin, q.kmn); keyBytes(c.kmax, q.kmx); t.dv = c.dmin; dataBytes(t, q.dmn); t.dv = c.dmax; dataBytes(t, q.dmx);
}
static void curOpen(int s, int kind, bool var) {
    Cursor &c = M().cur[s]; embedDBState *st = W->st;
    if (c.active) { api("embedDBCloseIterator", [&] { embedDBCloseIterator(&c.it); }); }
    memset(&c, 0, sizeof c);
    Bounds b = cursorBounds(kind);
    c.kind = b.hkmin | b.hkmax << 1 | b.hdmin << 2 | b.hdmax << 3; c.kmin = b.kmin; c.kmax = b.kmax; c.dmin = b.dmin; c.dmax = b.dmax; c.isVar = var; c.active = 1;
    bindCur(s); memset(&c.it, heapFill, sizeof c.it);
    c.it.minKey = b.hkmin ? curMem[s].kmn : nullptr; c.it.maxKey = b.hkmax ? curMem[s].kmx : nullptr; c.it.minData = b.hdmin ? curMem[s].dmn : nullptr; c.it.maxData = b.hdmax ? curMem[s].dmx : nullptr;
    api("embedDBInitIterator", [&] { embedDBInitIterator(st, &c.it); });
    stepDone("embedDBInitIterator"); checkLeak("embedDBInitIterator");
}
static void curStep(int s) {
    Model &m = M(); Cursor &c = m.cur[s]; embedDBState *st = W->st; bindCur(s);
    Bounds b; b.hkmin = c.kind & 1; b.hkmax = c.kind & 2; b.hdmin = c.kind & 4; b.hdmax = c.kind & 8; b.kmin = c.kmin; b.kmax = c.kmax; b.dmin = c.dmin; b.dmax = c.dmax;
    u8 *ok = guardedOut(C.k), *od = guardedOut(C.d); struct Fr { u8 *a, *b; ~Fr() { free(a); free(b); } } fr{ok, od};
    int rc = 99; embedDBVarDataStream *vs = nullptr; const char *nm = c.isVar ? "embedDBNextVar" : "embedDBNext";
    api(nm, [&] { rc = c.isVar ? embedDBNextVar(st, &c.it, ok, od, &vs) : embedDBNext(st, &c.it, ok, od); });
    if (digestMode) { dig(rc); if (rc == 1) { digb(ok, C.k); digb(od, C.d); } }
    u32 i = liveFirst();
    while (i < m.n && (!matches(m.recs[i], b) || (c.haveLast && m.recs[i].key <= c.last))) i++;
    nObs++;
    if (failHappened && rc == 0) { nFaultReported++; c.ended = 1; }
    if (c.ended) { stepDone(nm); if (vs) mc_free(vs); return; }
    if (rc == 0) {
        if (i < m.n) vio("open iterator (%s) ended after key %llu but record %llu (%s) is retained and matches", bstr(b).c_str(), c.haveLast ? (unsigned long long)c.last : 0ull, (unsigned long long)m.recs[i].key, where(i));
        c.ended = 1; stepDone(nm); return;
    }
    if (rc != 1) vio("%s returned %d", nm, rc);
    u64 gk = keyVal(ok);
    if (i >= m.n) vio("open iterator (%s) returned key %llu although no further record matches (last %llu)", bstr(b).c_str(), (unsigned long long)gk, (unsigned long long)c.last);
    if (gk != m.recs[i].key) vio("open iterator (%s) returned key %llu, expected %llu (%s) after %llu", bstr(b).c_str(), (unsigned long long)gk, (unsigned long long)m.recs[i].key, where(i), c.haveLast ? (unsigned long long)c.last : 0ull);
    dataBytes(m.recs[i], db_);
    if (memcmp(od, db_, C.d)) vio("open iterator returned wrong data for key %llu", (unsigned long long)gk);
    c.haveLast = 1; c.last = gk;
    stepDone(nm);
    if (c.isVar) { checkVarOutcome(nm, m.recs[i], false, vs, true); if (vs) { readStream(vs, m.recs[i], 13); mc_free(vs); } }
    checkLeak(nm);
}
static void strOpen(u32 idx) {
    Model &m = M(); StreamCur &s = m.str; embedDBState *st = W->st; Rec r = m.recs[idx];
    if (s.active) { mc_free(s.s); s.active = 0; }
    u8 *eo = guardedOut(C.d); keyBytes(r.key, kb); u8 *ek = exactBuf(C.k, kb); struct Fr { u8 *a, *b; ~Fr() { free(a); free(b); } } fr{ek, eo};
    embedDBVarDataStream *v = nullptr; int rc = 99;
    api("embedDBGetVar", [&] { rc = embedDBGetVar(st, ek, eo, &v); });
    if (failHappened && rc == -1) { nFaultReported++; stepDone("embedDBGetVar"); return; }
    if (rc != 0 && rc != 1) vio("embedDBGetVar(%llu) returned %d for a retained record", (unsigned long long)r.key, rc);
    stepDone("embedDBGetVar"); checkVarOutcome("embedDBGetVar", r, rc == 1, v, false);
    if (v) { s.s = v; s.active = 1; s.rec = idx; s.pos = 0; }
}
static void strRead(int chunk) {
    Model &m = M(); StreamCur &s = m.str; embedDBState *st = W->st; Rec &r = m.recs[s.rec];
    u8 *b = (u8 *)malloc(chunk); struct Fr { u8 *p; ~Fr() { free(p); } } fr{b}; u32 got = 0; memset(b, 0x3C, chunk);
    api("embedDBVarDataStreamRead", [&] { got = embedDBVarDataStreamRead(st, s.s, b, chunk); });
    u32 want = std::min<u32>(chunk, r.vlen - s.pos); nObs++;
    bool gone = r.vLo < varE();       // a page of this record may have been reclaimed since the stream was opened: it may end, but never deliver other bytes
    if (got < want && failHappened) nFaultReported++;
    if (got > want || (got < want && !gone && !failHappened)) vio("open stream of key %llu: read of %d bytes at position %u of %d returned %u", (unsigned long long)r.key, chunk, s.pos, r.vlen, got);
    for (u32 i = 0; i < got; i++) if (b[i] != varByte(r.seed, s.pos + i)) vio("open stream of key %llu: byte %u of %d is wrong", (unsigned long long)r.key, s.pos + i, r.vlen);
    s.pos += got; stepDone("embedDBVarDataStreamRead"); checkLeak("embedDBVarDataStreamRead");
}

// Reporting functions change nothing and report what is there.
static u64 worldHash(World *w);
static void setStats(u32 a, u32 b, u32 c, u32 d, u32 e) { embedDBState *st = W->st; st->numReads = a; st->numWrites = b; st->bufferHits = c; st->numIdxReads = d; st->numIdxWrites = e; }
static void doResetStats() {
    embedDBState *st = W->st; clearStats(); u64 h = worldHash(W); setStats(11, 12, 13, 14, 15);
    api("embedDBResetStats", [&] { embedDBResetStats(st); });
    if (st->numReads || st->numWrites || st->bufferHits || st->numIdxReads || st->numIdxWrites) vio("embedDBResetStats left reads/writes/hits/index reads/index writes at %u/%u/%u/%u/%u", st->numReads, st->numWrites, st->bufferHits, st->numIdxReads, st->numIdxWrites);
    if (worldHash(W) != h) vio("embedDBResetStats changed something besides the statistics");
    nObs++;
}
static void doPrint() {
    embedDBState *st = W->st; setStats(1001, 2002, 3003, 4004, 5005); u64 h = worldHash(W);
    printed.clear(); capturePrint = true; struct R { ~R() { capturePrint = false; } } r;
    api("embedDBPrintStats", [&] { embedDBPrintStats(st); });
    if (worldHash(W) != h) vio("embedDBPrintStats changed the database");
    static const char *lab[] = {"reads", "writes", "hits", "index reads", "index writes"}; std::string low; for (char c : printed) low += tolower(c);
    for (int i = 0; i < 5; i++) {
        bool ok = false; size_t p = 0; std::string want = std::to_string((i + 1) * 1001);
        while ((p = low.find(lab[i], p)) != std::string::npos) {   // the number that follows the label
            bool idx = p >= 6 && low.compare(p - 6, 6, "index ") == 0; size_t q = low.find_first_of("0123456789", p); p++;
            if (i < 2 && idx) continue;
            if (q != std::string::npos && low.compare(q, want.size(), want) == 0 && !isdigit(low[q + want.size()])) ok = true;
        }
        if (!ok) vio("embedDBPrintStats does not report that the number of %s is %s", lab[i], want.c_str());
    }
    clearStats(); h = worldHash(W); printed.clear();
    api("embedDBPrintInit", [&] { embedDBPrintInit(st); });
    if (worldHash(W) != h) vio("embedDBPrintInit changed the database");
    nObs++; clearStats();
}
static void doFlushVar() {
    int rc = 99; embedDBState *st = W->st; Model &m = M();
    api("embedDBFlushVar", [&] { rc = embedDBFlushVar(st); });
    digb(&rc, 4);
    if (failHappened && rc != 0) m.dead = 1;
    checkClaim("embedDBFlushVar", rc);
    if (!m.dead && rc != 0) vio("embedDBFlushVar returned %d", rc);
    if (!m.dead && has('Y') && W->dev[2].unsynced) vio("embedDBFlushVar succeeded but left %u page writes of the variable data file not flushed to the device", W->dev[2].unsynced);
    stepDone("embedDBFlushVar"); checkLeak("embedDBFlushVar");
}

static std::vector<std::string> split(const std::string &s, char d) { std::vector<std::string> v; std::string c; for (char x : s) if (x == d) { if (!c.empty()) v.push_back(c); c.clear(); } else c += x; if (!c.empty()) v.push_back(c); return v; }
// ------------------------------------------------------------------ alphabet
struct Op { char c; i64 a; std::string tok; int sd; };   // sd: which database, -1: the one with fewer puts
static Op parseOp(const std::string &s) {
    Op o; o.tok = s; o.sd = 0; size_t p = 0;
    if (s.size() > 2 && s[1] == ':') { o.sd = s[0] == 'B' ? 1 : s[0] == 'E' ? -1 : 0; p = 2; }
    o.c = s[p]; o.a = s.size() > p + 1 ? atoll(s.c_str() + p + 1) : 0; return o;
}
static void selFor(const Op &o) {
    if (!W2[0]) { setAlt(); return; }
    if (o.sd >= 0) { sel(o.sd); return; }
    sel(0); u32 a = M().puts; bool ao = M().open; sel(1); u32 b = M().puts; bool bo = M().open;
    sel(!ao ? 1 : !bo ? 0 : a <= b ? 0 : 1);
}
static u32 pickLive(i64 which) {   // 0 first live, 1 last, 2 middle, 3 first buffered, 4 last stored
    Model &m = M(); u32 lo = liveFirst(), n = m.n;
    switch (which) { case 0: return lo; case 1: return n - 1; case 2: return lo + (n - lo) / 2; case 3: return m.bufFirst < n ? m.bufFirst : n - 1; default: return m.bufFirst > lo ? m.bufFirst - 1 : lo; }
}
static bool enabled(const Op &o) {
    selFor(o);
    Model &m = M(); if (m.dead) return false;
    if (o.c == 'O') return !m.open;
    if (!m.open) return false;
    u32 lo = liveFirst();
    switch (o.c) {
        case 'k': if (m.n + 8 + o.a >= (u32)MAXR) return false; [[fallthrough]];
        case 'p': case 'h': case 'v': return m.n + 8 < (u32)MAXR && (!m.n || lastKey() < kmaxAllowed());
        case 'g': return m.n + 2 < (u32)MAXR && (!m.n || lastKey() + (u64)o.a <= kmaxAllowed()) && (!m.n || lastKey() + (u64)o.a > lastKey());
        case 'G': return m.n + 2 < (u32)MAXR && m.n && lastKey() < kmaxAllowed() - (kmaxAllowed() >> 2);
        case 'd': case 's': return m.n > 0;
        case 'z': return m.n > 0 && m.recs[0].key > 0;
        case 'f': case 'w': return true;
        case 'l': case 'V': return m.n > lo;
        case 'S': return m.n > lo && C.var && m.recs[pickLive(o.a)].vlen >= 0;
        case 't': return m.cur[0].active; case 'T': return m.cur[1].active;
        case 'c': return m.cur[0].active; case 'q': return m.str.active;
        case 'Q': return m.str.active;
        case 'N': case 'y': return C.var;
        case 'D': return !(C.var && C.rlc && (o.a & 5) == 1);
        default: return true;
    }
}
static int defLen() { return C.lens[M().puts % C.lens.size()]; }
// Many accepted puts in a row; records whose pages were reclaimed long ago leave the model, so that page
// numbers grow without the model growing.
static void fastForward(i64 cnt, bool irregular) {
    Model &m = M();
    for (i64 i = 0; i < cnt; i++) {
        if (m.n + 16 >= (u32)MAXR) {
            u32 lo = liveFirst(), keep = 4; if (lo <= keep) { fprintf(stderr, "model too small\n"); exit(3); }
            u32 cut = lo - keep;
            memmove(m.recs, m.recs + cut, (m.n - cut) * sizeof(Rec)); memset(m.recs + (m.n - cut), 0, cut * sizeof(Rec));
            m.n -= cut; m.bufFirst -= cut; for (u32 &p : m.pageFirst) p = p > cut ? p - cut : 0;
        }
        doPut(m.n ? lastKey() + (irregular ? 1 + mix(lastKey() / 64) % 7 : C.gap) : C.key0, defDv(), defLen());
    }
}
static void apply1(const Op &o) {
    Model &m = M();
    u64 nk = m.n ? lastKey() + C.gap : C.key0;
    if (m.n && nk < lastKey()) nk = lastKey() + 1;
    if (nk > kmaxAllowed()) nk = kmaxAllowed();
    switch (o.c) {
        case 'p': doPut(nk, defDv(), defLen()); break;                                        // default put
        case 'g': doPut(m.n ? lastKey() + o.a : o.a, defDv(), defLen()); break;              // gap
        case 'G': doPut(lastKey() + ((kmaxAllowed() - lastKey()) >> 1), defDv(), defLen()); break; // half of the remaining key space
        case 'h': doPut(nk, C.vbase + (int)o.a * C.vstep + 1, defLen()); break;              // chosen data bucket
        case 'v': doPut(nk, defDv(), (int)o.a); break;                                       // chosen variable length (-1, -2 allowed)
        case 'k': for (int i = 0; i < o.a; i++) { if (M().dead) break; u64 q = M().n ? keyUp(C.gap) : C.key0; doPut(q, defDv(), defLen()); } break;
        case 'F': case 'J': fastForward(o.a, o.c == 'J'); break;                              // many puts (J: unevenly spread keys), forgetting reclaimed records
        case 'd': doPut(lastKey(), defDv(), o.a == 1 ? 5 : defLen()); break;                 // duplicate
        case 's': doPut(lastKey() - 1 > lastKey() ? 0 : lastKey() - 1, defDv(), defLen()); break; // smaller by one
        case 'z': doPut(0, defDv(), defLen()); break;                                        // far smaller
        case 'f': doFlush(); break;
        case 'y': doFlushVar(); break;
        case 'Z': doResetStats(); break;
        case 'E': doPrint(); break;
        case 'w': doPut(nk, defDv(), defLen()); if (!M().dead) doFlush(); break;
        case 'r': doReopen(true); break;
        case 'R': doReopen(false); break;
        case 'A': doAlt((int)o.a); break;
        case 'D': doRemove((int)o.a); break;                                                 // close, remove files, open
        case 'K': closeDb(); m.open = 0; memset(m.cur, 0, sizeof m.cur); memset(&m.str, 0, sizeof m.str); break;      // close and leave closed
        case 'O': { Model P = m; dev_powercut(); reopenRaw(-1); adopt(P, P, "reopen"); clearStats(); break; }   // open again
        case 'l': doGet(m.recs[pickLive(o.a)].key); break;
        case 'x': doGet(m.n ? lastKey() + 1 : 5); break;
        case 'X': doGet(m.n && m.recs[liveFirst()].key ? m.recs[liveFirst()].key - 1 : 0); break;
        case 'i': { Bounds b; if (o.a) b = cursorBounds((int)o.a); runIter(b); break; }
        case 'V': doGetVar(pickLive(o.a), 11); break;
        case 'N': { Bounds b; runIter(b, true, 9); break; }
        case 'o': curOpen(0, (int)o.a % 10, o.a >= 10); break;
        case 'u': curOpen(1, (int)o.a % 10, o.a >= 10); break;
        case 't': curStep(0); break;
        case 'T': curStep(1); break;
        case 'c': { Cursor &c = m.cur[0]; api("embedDBCloseIterator", [&] { embedDBCloseIterator(&c.it); }); memset(&c, 0, sizeof c); checkLeak("embedDBCloseIterator"); break; }
        case 'S': strOpen(pickLive(o.a)); break;
        case 'q': strRead((int)o.a); break;
        case 'Q': mc_free(m.str.s); memset(&m.str, 0, sizeof m.str); break;
        default: fprintf(stderr, "unknown op %c\n", o.c); exit(3);
    }
}

static u64 worldHash(World *w) {
    u64 a = w->arenaOff + ((w->arenaTop + 15) & ~15u), b = w->arenaOff + ARENA;
    u64 h = hash_bytes(w, a, 0x1234); return hash_bytes((u8 *)w + b, w->size - b, h);
}
static void apply(const Op &o) {
    selFor(o);
    u64 h = W2[0] ? worldHash(W2[1 - side]) : 0;
    apply1(o);
    if (W2[0] && worldHash(W2[1 - side]) != h) vio("%s on one database changed memory or storage that belongs to the other", o.tok.c_str());
}

// ------------------------------------------------------------------ exploration
static std::vector<Op> alpha; static Op defOp;
static std::vector<std::string> path;
static std::vector<std::string> bestPath;
static u64 maxStates = 0; static double timeCap = 0; static bool capped = false; static double t0;
static double now() { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }
struct Vis { u8 rem[6]; };
static std::unordered_map<u64, Vis> visited;
static std::unordered_set<u64> observed;
static int postL = 0, postD = 0, crashBudget = 0, faultBudget = 0; static bool crashInit = false, partErase = true; static int faultMask = 0, faultDevs = 7, faultSticky = 0;

static u64 stateHash() {
    // cursor bound pointers refer to fixed buffers; everything else in the snapshot is position independent
    u64 h = 0x77;
    for (int i = 0; i < (W2[0] ? 2 : 1); i++) { sel(i); if (W->st) clearStats(); resetCounters(); h = h * 31 + worldHash(W); }
    return statics_hash(h);
}
static std::string pathStr() { std::string s; for (auto &p : path) { if (!s.empty()) s += ' '; s += p; } return s; }
static void note() { if (samples.size() < 4 && (nTrans % 977 == 5 || samples.empty()) && path.size() > 3) samples.push_back(pathStr()); }
static u64 nDig = 0; static i64 digestAt = -1; static std::string digestPath;
static u64 digestNow() { u64 x = digestAcc; for (auto &d : W->dev) x = hash_bytes((u8 *)W + d.off, (u64)d.nPages * d.pageSize, x + d.length); digestAcc = 0; return x; }
static void flushDigest() {
    if (!digestFile) return;
    u64 x = digestNow(); fwrite(&x, 8, 1, digestFile);
    if ((i64)nDig++ == digestAt) { digestPath = pathStr(); capped = true; }
}
// Storage handed to the other build: every state, closed (flushed or not), as device images plus model.
static FILE *xsaveFile = nullptr; static u64 nX = 0;
static void xwrite(const void *p, size_t n) { if (fwrite(p, 1, n, xsaveFile) != n) { fprintf(stderr, "pipe broken\n"); exit(3); } }
static void xsave(int flush) {
    Snap s; snap_save(s);
    if (flush) doFlush();
    Model P = M(); closeDb(); dev_powercut();
    std::string ps = pathStr(); u32 h[3] = {0x5AFE, (u32)ps.size(), (u32)flush}; xwrite(h, sizeof h); xwrite(ps.data(), ps.size()); 
    xwrite(&P, offsetof(Model, cur)); u32 rest[2] = {P.puts, P.orphN}; xwrite(rest, sizeof rest); xwrite(P.orphKey, sizeof P.orphKey); xwrite(P.orphLo, sizeof P.orphLo); xwrite(P.recs, sizeof(Rec) * P.n);
    for (auto &d : W->dev) { u32 m[4] = {d.exists, d.length, d.writes, d.erases}; xwrite(m, sizeof m); xwrite(d.prog, d.nPages); xwrite(d.seq, 4 * d.nPages); xwrite((u8 *)W + d.off, (u64)d.nPages * d.pageSize); }
    nX++; snap_load(s);
}
static bool xread(FILE *f, void *p, size_t n) { return fread(p, 1, n, f) == n; }
static void xload(FILE *f) {
    for (u32 h[3]; xread(f, h, sizeof h);) {
        if (h[0] != 0x5AFE) { fprintf(stderr, "bad stream\n"); exit(3); }
        std::string ps(h[1], ' '); bool ok = xread(f, &ps[0], h[1]);
        arena_reset(); memset(&M(), 0, sizeof(Model)); Model &P = M(); u32 rest[2];
        ok = ok && xread(f, &P, offsetof(Model, cur)) && xread(f, rest, sizeof rest); P.puts = rest[0]; P.orphN = rest[1];
        ok = ok && xread(f, P.orphKey, sizeof P.orphKey) && xread(f, P.orphLo, sizeof P.orphLo) && xread(f, P.recs, sizeof(Rec) * P.n);
        for (auto &d : W->dev) { u32 m[4]; ok = ok && xread(f, m, sizeof m); d.exists = m[0]; d.isOpen = 0; d.length = m[1]; d.writes = m[2]; d.erases = m[3]; d.unsynced = 0;
            ok = ok && xread(f, d.prog, d.nPages) && xread(f, d.seq, 4 * d.nPages) && xread(f, (u8 *)W + d.off, (u64)d.nPages * d.pageSize); }
        if (!ok) { fprintf(stderr, "short stream\n"); exit(3); }
        path.clear(); for (auto &t : split(ps, ' ')) path.push_back(t);
        path.push_back(h[2] ? "f" : "K"); path.push_back("<other build opens>");
        Model Q = P; reopenRaw(-1); adopt(Q, Q, "opening storage written by the other build"); clearStats();
        nX++; nStates++; observe();
        for (int i = 0; i < 3 && enabled(defOp); i++) { apply(defOp); nTrans++; observe(); }
    }
}
static void countTrans() {
    nTrans++; note(); flushDigest();
    if ((nTrans & 255) == 0 && timeCap > 0 && now() - t0 > timeCap) capped = true;
}
static void explore(int depth, int devs, int crashes, int faults);

#include "fault.inc"
static void crashAll(const Snap &pre, const Op &o, int nops, int devs, int crashes, int faults, const Model &post) {
    // power cut before device operation k of the operation, k = 1..nops (0 coincides with the previous state),
    // k = nops: after the last one; if operation k is an erase, also inside of it: part = 1..B-1 pages are erased already
    for (int k = 0; k <= nops && !capped; k++) for (int part = k ? 0 : 1, erase = 1; part == 0 || (part < C.B && C.kind && partErase && erase); part++) {
        if (capped) break;
        snap_load(pre);
        Model P = M();
        crashAt = k; crashArmed = true; crashPart = part; crashIn = -1;
        bool cut = false;
        try { apply(o); } catch (CrashEx &) { cut = true; }
        catch (...) { crashAt = -1; crashArmed = false; throw; }
        crashAt = -1; crashArmed = false; crashPart = 0;
        erase = cut && crashIn == OT_ERASE;
        if (!cut && k < nops) vio("harness: operation %s was not deterministic", o.tok.c_str());
        if (part && !erase) break;
        path.push_back(o.tok + "!" + std::to_string(k) + (part ? "." + std::to_string(part) : ""));
        nCrash++;
        dev_powercut();
        Snap cutS; snap_save(cutS);
        reopenRaw(-1); int initOps = opCount;
        adopt(P, post, "recovery after power cut");
        clearStats(); countTrans();
        explore(postL, std::min(devs, postD), crashes - 1, faults);
        std::string tok = path.back();
        if (crashInit && crashes > 0) for (int j = 0; j <= initOps && !capped; j++) for (int p2 = j ? 0 : 1, er2 = 1; p2 == 0 || (p2 < C.B && C.kind && partErase && er2); p2++) {
            if (capped) break;
            snap_load(cutS); bool cut2 = false; crashPart = p2; crashIn = -1;
            try { reopenRaw(j); } catch (CrashEx &) { cut2 = true; }
            crashPart = 0; er2 = cut2 && crashIn == OT_ERASE;
            if (!cut2 && j < initOps) vio("harness: recovery was not deterministic");
            if (p2 && !er2) break;
            path.back() = tok + "!" + std::to_string(j) + (p2 ? "." + std::to_string(p2) : "");
            nCrash++; dev_powercut();
            reopenRaw(-1); adopt(P, post, "recovery after a power cut during recovery");
            clearStats(); countTrans();
            explore(postL, std::min(devs, postD), crashes - 1, faults);
        }
        path.pop_back();
    }
}

static void explore(int depth, int devs, int crashes, int faults) {
    size_t base = path.size();
    for (;;) {
        if (capped) break;
        if (W2[0] ? (sel(0), M().dead) || (sel(1), M().dead) : M().dead) break;
        u64 h = stateHash();
        if (!digestMode) {
            int key = devs + 2 * (crashes + faults); if (key > 5) key = 5;
            auto &v = visited[h];
            bool seen = false;
            for (int q = key; q < 6; q++) if (v.rem[q] > depth) { seen = true; break; }
            if (seen) break;
            if (depth + 1 > v.rem[key]) v.rem[key] = (u8)std::min(255, depth + 1);
        }
        if (observed.insert(h).second || digestMode) { nStates++; observe(); if (digestMode) flushDigest(); if (xsaveFile) { xsave(0); xsave(1); } }
        if (depth <= 0) break;
        bool alts = devs > 0;
        if (alts || crashes > 0 || faults > 0) {
            Snap s; snap_save(s);
            if (alts) for (auto &o : alpha) {
                if (capped) break;
                if (!enabled(o)) continue;
                path.push_back(o.tok);
                apply(o); int nops = opCount; countTrans();
                bool multi = o.c == 'r' || o.c == 'R' || o.c == 'D' || o.c == 'A' || o.c == 'k' || o.c == 'w' || o.c == 'i' || o.c == 'N';
                Model post = M();
                explore(depth - 1, devs - 1, crashes, faults);
                path.pop_back();
                if (crashes > 0 && !multi && nops) crashAll(s, o, nops, devs - 1, crashes, faults, post);
                if (faults > 0 && (!multi || o.c == 'i' || o.c == 'N' || o.c == 'r')) { snap_load(s); faultAll(s, o, depth, devs - 1, crashes, faults); }
                snap_load(s);
            }
            if (capped) break;
            if (enabled(defOp)) {
                if (crashes > 0) {
                    apply(defOp); int nops = opCount; Model post = M();
                    if (nops) crashAll(s, defOp, nops, devs, crashes, faults, post);
                    snap_load(s);
                }
                if (faults > 0) { faultAll(s, defOp, depth, devs, crashes, faults); snap_load(s); }
            }
        }
        if (!enabled(defOp)) break;
        path.push_back(defOp.tok); apply(defOp); countTrans(); depth--;
    }
    path.resize(base);
}

// ------------------------------------------------------------------ replay
static int replayPath(const std::vector<std::string> &toks, bool verbose) {
    try {
        db_fresh(); observe();
        for (auto &t : toks) {
            if (verbose) { printf("step %s  (records %u, buffered %u, pages %u..%u)\n", t.c_str(), M().n, M().n - M().bufFirst, M().minPage, M().nextPage); fflush(stdout); }
            size_t e = t.find('!'), f = t.find('~');
            if (e != std::string::npos) {
                Op o = parseOp(t.substr(0, e)); auto num = [](const std::string &x, int &a, int &b) { a = atoi(x.c_str()); size_t d = x.find('.'); b = d == std::string::npos ? 0 : atoi(x.c_str() + d + 1); };
                int k, kp, j = -1, jp = 0; size_t e2 = t.find('!', e + 1); num(t.substr(e + 1, e2 == std::string::npos ? e2 : e2 - e - 1), k, kp); if (e2 != std::string::npos) num(t.substr(e2 + 1), j, jp);
                Snap s; snap_save(s); Model P = M(); apply(o); Model Q = M(); snap_load(s);
                crashAt = k; crashArmed = true; crashPart = kp; try { apply(o); } catch (CrashEx &) {}
                crashAt = -1; crashArmed = false; crashPart = 0;
                if (verbose) for (auto &x : oplog) printf("    dev %d %s %u..%u ok=%d\n", x.dev, x.type == 0 ? "read" : x.type == 1 ? "write" : x.type == 2 ? "erase" : "other", x.a, x.b, x.ok);
                dev_powercut();
                if (j >= 0) { crashPart = jp; try { reopenRaw(j); } catch (CrashEx &) {} crashPart = 0; dev_powercut(); }
                reopenRaw(-1); adopt(P, Q, "recovery after power cut"); clearStats();
            } else if (f != std::string::npos) {
                Op o = parseOp(t.substr(0, f)); faultReplay(o, t.substr(f + 1));
            } else { Op o = parseOp(t); apply(o); if (verbose) for (auto &x : oplog) printf("    dev %d %s %u..%u ok=%d\n", x.dev, x.type == 0 ? "read" : x.type == 1 ? "write" : x.type == 2 ? "erase" : "other", x.a, x.b, x.ok); }
            observe();
            if (digestMode && verbose) printf("    digest %016llx\n", (unsigned long long)digestNow());
        }
    } catch (Violation &v) { crashAt = failAt = -1; crashArmed = false; printf("REPLAY-VIOLATION %s\n", v.what.c_str()); return 1; }
    printf("REPLAY-OK\n"); return 0;
}
static std::string jesc(const std::string &s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') o += '\\'; if (c == '\n') { o += "\\n"; continue; } o += c; } return o; }

int main(int argc, char **argv) {
    std::map<std::string, std::string> a;
    for (int i = 1; i < argc; i++) { std::string s = argv[i]; size_t e = s.find('='); if (e == std::string::npos) a[s] = "1"; else a[s.substr(0, e)] = s.substr(e + 1); }
    auto I = [&](const char *n, i64 d) -> i64 { return a.count(n) ? atoll(a[n].c_str()) : d; };
    auto cfg = [&](const std::string &q) {
        auto I = [&](const char *n, i64 d) -> i64 { std::string m = q + n; return a.count(m) ? atoll(a[m].c_str()) : a.count(n) ? atoll(a[n].c_str()) : d; };
        C.k = I("k", 4); C.d = I("d", 4); C.ps = I("ps", 64); C.N = I("N", 8); C.B = I("B", 2); C.ip = I("ip", 4); C.vp = I("vp", 8);
        C.idx = I("idx", 0); C.mm = I("mm", 0); C.bmap = I("bmap", 0); C.var = I("var", 0); C.rlc = I("rlc", 0); C.bin = I("bin", 0); C.nosc = I("nosc", 0);
        C.spl = I("spl", 8); C.err = I("err", 1); C.bm = I("bm", 1); C.kind = I("kind", 0); C.key0 = I("key0", 10); C.gap = I("gap", 2);
        C.ownbm = I("ownbm", 1); C.owncmp = I("owncmp", 1); C.vbase = I("vbase", 0); C.vstep = I("vstep", 10); C.nb = I("nb", 6);
        std::string ln = a.count(q + "lens") ? a[q + "lens"] : a.count("lens") ? a["lens"] : "";
        if (!ln.empty()) { C.lens.clear(); for (auto &x : split(ln, ',')) C.lens.push_back(atoi(x.c_str())); }
        std::string kx = a.count(q + "key0x") ? a[q + "key0x"] : a.count("key0x") ? a["key0x"] : "";
        if (!kx.empty()) C.key0 = strtoull(kx.c_str(), 0, 16);
    };
    bool two = I("two", 0);
    cfg("");
    obsSet = a.count("obs") ? a["obs"] : "G"; PROP = a.count("prop") ? a["prop"] : "C00";
    heapFill = (u8)I("fill", 0xA5);
    int L = I("L", 40), D = I("D", 1), P0 = I("P0", 0), P1 = I("P1", 0), Pstep = I("Ps", 1);
    crashBudget = I("crash", 0); postL = I("postL", 12); postD = I("postD", 0); crashInit = I("cinit", 0); partErase = I("perase", 1); faultBudget = I("fault", 0); faultMask = I("fmask", 7); faultDevs = I("fdevs", 7); faultSticky = I("fsticky", 0); failCut = I("fcut", 0);
    timeCap = I("cap", 0);
    if (a.count("digestAt")) digestAt = I("digestAt", 0);
    if (a.count("xsave")) xsaveFile = fopen(a["xsave"].c_str(), "wb");
    if (a.count("digest")) { digestMode = true; digestFile = fopen(a["digest"].c_str(), "wb"); setvbuf(digestFile, nullptr, _IOFBF, 1 << 20); }
    defOp = parseOp(a.count("def") ? a["def"] : "p");
    for (auto &x : split(a.count("ops") ? a["ops"] : "f", ',')) alpha.push_back(parseOp(x));
    if (C.maxRec() < 1) { fprintf(stderr, "configuration holds no record\n"); return 3; }
    if (C.N >= PRING) { fprintf(stderr, "model too small for so many pages\n"); return 3; }
    if (C.bufs() * C.ps > 6000) ARENA += C.bufs() * C.ps;
    rt_init();
    auto mk = [&](u64 addr) { u32 pages[3] = {(u32)C.N, (u32)(C.idx ? C.ip : 1), (u32)(C.var ? C.vp : 1)}; return world_create(addr, sizeof(Model), pages, C.ps, C.B, C.kind); };
    CC[0] = C; W = mk(0x100000000000ull);
    if (two) {      // b.NAME=... configures the second database
        CC[0] = C; cfg("b."); CC[1] = C;
        if (C.maxRec() < 1) { fprintf(stderr, "configuration holds no record\n"); return 3; }
        World *w1 = mk(0x110000000000ull); W2[0] = W; W2[1] = w1; sel(0);
    }
    if (a.count("replay")) return replayPath(split(a["replay"], ' '), I("verbose", 1));
    t0 = now();
    std::string viol; int completedD = -1;
    auto setup = split(a.count("pre") ? a["pre"] : "", ',');
    try {
        if (a.count("xload")) { FILE *f = fopen(a["xload"].c_str(), "rb"); db_fresh(); closeDb(); xload(f); D = -1; }
        int Dfrom = digestMode ? D : I("Dfrom", 0);
        for (int dd = Dfrom; dd <= D && !capped; dd = (dd < D && D > 3) ? D : dd + 1) {
            for (int p = P0; p <= P1 && !capped; p += Pstep) {
                if (dd != D || p == P0) visited.clear();
                path.clear();
                db_fresh();
                for (int i = 0; i < p; i++) { path.push_back(defOp.tok); apply(defOp); countTrans(); }
                for (auto &t : setup) { Op o = parseOp(t); if (!enabled(o)) continue; path.push_back(o.tok); apply(o); countTrans(); }
                explore(L, dd, crashBudget, faultBudget);
            }
            if (!capped) completedD = dd;
        }
    } catch (Violation &v) { viol = v.what; }
    catch (CrashEx &) { viol = "harness: power cut escaped"; }
    if (digestFile) fclose(digestFile);
    if (xsaveFile) fclose(xsaveFile);
    if (digestAt >= 0) path = split(digestPath, ' ');
    std::string vp = pathStr();
    if (!viol.empty()) {
        // confirm by replaying the path twice from scratch (in forked children so that state is clean)
        fflush(stdout);
    }
    printf("{\"prop\":\"%s\",\"violation\":\"%s\",\"path\":\"%s\",\"states\":%llu,\"transitions\":%llu,\"observations\":%llu,\"api_calls\":%llu,\"crash_points\":%llu,\"recoveries\":%llu,\"faults\":%llu,\"faults_reported\":%llu,\"found\":%llu,\"absent\":%llu,\"iterations\":%llu,\"var_exact\":%llu,\"var_lost\":%llu,\"exchanged\":%llu,\"capped\":%d,\"completedD\":%d,\"wall\":%.2f,\"samples\":[",
           PROP.c_str(), jesc(viol).c_str(), jesc(vp).c_str(), (unsigned long long)nStates, (unsigned long long)nTrans, (unsigned long long)nObs, (unsigned long long)nApi, (unsigned long long)nCrash, (unsigned long long)nRecover, (unsigned long long)nFault, (unsigned long long)nFaultReported, (unsigned long long)nFound, (unsigned long long)nAbsent, (unsigned long long)nIters, (unsigned long long)nExactVar, (unsigned long long)nLost, (unsigned long long)nX, (int)capped, completedD, now() - t0);
    for (size_t i = 0; i < samples.size(); i++) printf("%s\"%s\"", i ? "," : "", jesc(samples[i]).c_str());
    printf("]}\n");
    return viol.empty() ? 0 : 1;
}
