// Configurations as the state space: every combination of features with boundary values of the parameters
// is initialised (mode=valid), failing to create a file at every open (mode=open), and every accepted
// combination runs histories whose results must be those of a plain array (mode=valid, mode=grid).
#include "unit.h"
enum { FX = 1, FM = 2, FB = 4, FV = 8, FR = 16, FN = 32, FC = 64 };   // index, min/max, bitmap, variable data, record-level consistency, binary search, no spline clean
struct Cf { int f, k, d, ps, B, N, ip, vp, bufs, spl, bm, df, xf, vf, fi, buf, err, lim; };       // lim: most records put
static int Cf::*const PM[] = {&Cf::k, &Cf::d, &Cf::ps, &Cf::B, &Cf::N, &Cf::ip, &Cf::vp, &Cf::bufs, &Cf::spl, &Cf::bm, &Cf::df, &Cf::xf, &Cf::vf, &Cf::fi, &Cf::buf, &Cf::err, &Cf::lim};
static const char *const PN[] = {"k", "d", "ps", "B", "N", "ip", "vp", "bufs", "spl", "bm", "df", "xf", "vf", "fi", "buf", "err", "lim"};
const int NP = 17;
static int need(const Cf &c) { return 2 + (c.f & FX ? 2 : 0) + (c.f & FV ? 2 : 0); }
static int header(const Cf &c) { return 6 + (c.f & (FX | FB) ? c.bm : 0) + (c.f & FM ? 2 * c.k + 2 * c.d : 0); }
static int rec(const Cf &c) { return c.k + c.d + (c.f & FV ? 4 : 0); }
static int parameters(const Cf &c, bool reset) {
    return (c.f & FX ? EMBEDDB_USE_INDEX : 0) | (c.f & FM ? EMBEDDB_USE_MAX_MIN : 0) | (c.f & FB ? EMBEDDB_USE_BMAP : 0) | (c.f & FV ? EMBEDDB_USE_VDATA : 0) | (c.f & FR ? EMBEDDB_RECORD_LEVEL_CONSISTENCY : 0) |
           (c.f & FN ? EMBEDDB_USE_BINARY_SEARCH : 0) | (c.f & FC ? EMBEDDB_DISABLE_SPLINE_CLEAN : 0) | (reset ? EMBEDDB_RESET_DATA : 0);
}
// the documented requirements
static const char *wrong(const Cf &c) {
    if (c.k < 1 || c.k > 8) return "key size";
    if (c.d < 0) return "data size";
    if (!c.fi || !c.buf) return "file interface or buffer missing";
    if (!c.df || (c.f & FX && !c.xf) || (c.f & FV && !c.vf)) return "file missing";
    if (c.B < 1) return "erase size";
    if (c.N % c.B || (u32)c.N < (c.f & (FR | FX) ? 4ull : 2ull) * c.B) return "number of data pages";
    if (c.f & FX && (c.ip % c.B || c.ip < 2ll * c.B)) return "number of index pages";
    if (c.f & FV && (c.vp % c.B || c.vp < 2ll * c.B)) return "number of variable data pages";
    if (c.f & FV && (u64)c.vp * c.ps > 0xFFFFFFFFu) return "variable data area that 4 byte locations cannot address";
    if (c.bufs < need(c)) return "number of buffers";
    if (!(c.f & FN) && c.spl < 4) return "number of spline points";
    if (c.f & (FX | FB) && c.bm < 1) return "bitmap size";
    if (c.ps < header(c) + rec(c)) return "page too small for a record";
    if (c.f & FX && c.ps < 16 + c.bm) return "page too small for an index record";
    if (c.f & FV && c.ps < c.k + 5) return "page too small for variable data";
    return nullptr;
}
// ------------------------------------------------------------------ callbacks of the user
static Cf C;
static int8_t cmpKey(void *a, void *b) { u64 x = 0, y = 0; memcpy(&x, a, C.k); memcpy(&y, b, C.k); return x < y ? -1 : x > y ? 1 : 0; }
static int8_t cmpData(void *a, void *b) { int r = C.d ? memcmp(a, b, C.d) : 0; return r < 0 ? -1 : r > 0 ? 1 : 0; }
static int bucket(const void *d) { return C.d ? *(const u8 *)d * 8 * C.bm / 256 : 0; }
static void updBm(void *d, void *bm) { int b = bucket(d); ((u8 *)bm)[b / 8] |= 1 << b % 8; }
static int8_t inBm(void *d, void *bm) { int b = bucket(d); return ((u8 *)bm)[b / 8] >> b % 8 & 1; }
static void rngBm(void *lo, void *hi, void *bm) { int a = lo ? bucket(lo) : 0, z = hi ? bucket(hi) : 8 * C.bm - 1; memset(bm, 0, C.bm); for (int b = a; b <= z; b++) ((u8 *)bm)[b / 8] |= 1 << b % 8; }
// ------------------------------------------------------------------ one database
struct R { u64 key; std::vector<u8> d; int vlen; };
static std::vector<R> rows; static embedDBState *st; static void *buffer; static u32 base;
static u64 keyMax() { return C.k >= 8 ? ~0ull : (1ull << 8 * C.k) - 1; }
static u64 keyOf(u32 i) { return C.k == 1 ? 2 + i : C.k >= 6 ? 1000003ull * (i + 1) + (i * 7919ull % 1000) : C.k >= 4 ? 3 + 1001ull * i + i % 3 : 5 + 3 * i + i % 2; }
static void dataOf(u32 i, u8 *o) { for (int j = 0; j < C.d; j++) o[j] = (u8)(j == 0 ? (i * 97 + 13) : i * 31 + j * 17 + 1); }
static u32 maxPages = 500;
static void devices() {
    u32 n[3] = {(u32)C.N, (u32)C.ip, (u32)C.vp};
    for (int i = 0; i < 3; i++) { Dev &d = W->dev[i]; Dev e; memset(&e, 0, sizeof e); e.off = d.off; e.id = d.id; e.kind = d.kind; e.maxPages = d.maxPages; e.prog = d.prog; e.seq = d.seq; d = e; dev_wipe(d); d.nPages = std::min<u32>(n[i], maxPages); d.area = n[i]; d.pageSize = std::max(C.ps, 1); d.blk = std::max(C.B, 1); }
}
static void makeState(bool reset) {
    base = W->liveAllocs;
    st = (embedDBState *)mc_malloc(sizeof *st); memset(st, 0, sizeof *st);
    st->keySize = C.k; st->dataSize = C.d; st->pageSize = C.ps; st->bufferSizeInBlocks = C.bufs; st->eraseSizeInPages = C.B;
    st->numDataPages = C.N; st->numIndexPages = C.ip; st->numVarPages = C.vp; st->numSplinePoints = C.spl; st->bitmapSize = C.bm;
    buffer = C.buf && C.bufs > 0 ? mc_malloc((size_t)C.bufs * C.ps) : nullptr; st->buffer = buffer; if (C.buf && !buffer) st->buffer = buffer = mc_malloc(1);
    st->fileInterface = C.fi ? &mcFI : nullptr; st->dataFile = C.df ? &W->dev[0] : nullptr; st->indexFile = C.xf ? &W->dev[1] : nullptr; st->varFile = C.vf ? &W->dev[2] : nullptr;
    st->parameters = parameters(C, reset); st->compareKey = cmpKey; st->compareData = cmpData; st->updateBitmap = updBm; st->inBitmap = inBm; st->buildBitmapFromRange = rngBm;
}
static void dropState() { mc_free(buffer); mc_free(st); st = nullptr; if (W->liveAllocs != base) vio("%u heap blocks are still allocated", W->liveAllocs - base); memCheck("the database"); }
static void contract(const char *n) { if (!contractErr.empty()) vio("%s: %s", n, contractErr.c_str()); }
static int init() { int rc = 99; contractErr.clear(); api("embedDBInit", [&] { rc = embedDBInit(st, C.err); }); contract("embedDBInit"); return rc; }
static void openDb(bool reset) { makeState(reset); int rc = init(); if (rc) vio("embedDBInit returned %d", rc); }
static void closeDb() { api("embedDBClose", [&] { embedDBClose(st); }); contract("embedDBClose"); for (auto &d : W->dev) if (d.isOpen) vio("embedDBClose left a file open"); dropState(); }
static u8 vb(u32 i, u32 j) { return (u8)(i * 13 + j * 5 + 7); }
static void putOne() {
    u32 i = rows.size(); R r; r.key = keyOf(i); r.d.resize(C.d); dataOf(i, r.d.data()); r.vlen = -2; nTrans++;
    u8 kb[8]; memcpy(kb, &r.key, 8); Exact k(C.k, kb), d(C.d, r.d.data()); int rc = 99;
    if (C.f & FV && i % 3 != 2) {
        r.vlen = i % 3 ? 1 + (int)(i * 5 % 17) : -1; Exact v(r.vlen > 0 ? r.vlen : 1); for (int j = 0; j < r.vlen; j++) v.p[j] = vb(i, j);
        api("embedDBPutVar", [&] { rc = embedDBPutVar(st, k, d, r.vlen > 0 ? v.p : nullptr, r.vlen > 0 ? r.vlen : 0); });
    } else api("embedDBPut", [&] { rc = embedDBPut(st, k, d); });
    contract("put"); if (rc) vio("put of key %llu returned %d", (unsigned long long)r.key, rc);
    rows.push_back(r);
}
static void flushDb() { nTrans++; int rc = 99; api("embedDBFlush", [&] { rc = embedDBFlush(st); }); contract("embedDBFlush"); if (rc) vio("embedDBFlush returned %d", rc); }
static void reopen() { nTrans++; closeDb(); openDb(false); }
static int get(u64 key, u8 *out) { u8 kb[8]; memcpy(kb, &key, 8); Exact k(C.k, kb), d(C.d); memset(d.p, 0x77, C.d); int rc = 99; nObs++; api("embedDBGet", [&] { rc = embedDBGet(st, k, d); }); contract("embedDBGet"); memcpy(out, d.p, C.d); return rc; }
// what an iterator with these bounds must return: the rows from 'from' on that satisfy them
static void iterate(size_t from, const u64 *lo, const u64 *hi, const u8 *dlo, const u8 *dhi) {
    embedDBIterator it; memset(&it, 0x5A, sizeof it); it.minKey = it.maxKey = it.minData = it.maxData = nullptr; nObs++;
    Exact kl(C.k, lo), kh(C.k, hi), dl(C.d, dlo), dh(C.d, dhi); if (lo) it.minKey = kl.p; if (hi) it.maxKey = kh.p; if (dlo) it.minData = dl.p; if (dhi) it.maxData = dh.p;
    api("embedDBInitIterator", [&] { embedDBInitIterator(st, &it); });
    Exact k(C.k), d(C.d); size_t i = from;
    for (size_t n = 0;; n++) {
        int rc = 99; api("embedDBNext", [&] { rc = embedDBNext(st, &it, k, d); }); contract("embedDBNext");
        while (i < rows.size() && ((lo && rows[i].key < *lo) || (hi && rows[i].key > *hi) || (dlo && C.d && memcmp(rows[i].d.data(), dlo, C.d) < 0) || (dhi && C.d && memcmp(rows[i].d.data(), dhi, C.d) > 0))) i++;
        if (i == rows.size()) { if (rc) vio("an iterator returned a record after all %zu that match", n); break; }
        if (!rc) vio("an iterator ended before key %llu, which matches", (unsigned long long)rows[i].key);
        u64 g = 0; memcpy(&g, k.p, C.k); if (g != rows[i].key || memcmp(d.p, rows[i].d.data(), C.d)) vio("an iterator returned key %llu or its data instead of key %llu", (unsigned long long)g, (unsigned long long)rows[i].key);
        i++;
    }
    api("embedDBCloseIterator", [&] { embedDBCloseIterator(&it); });
}
static void observe(size_t minKept, bool bounds) {      // retained: a suffix of at least minKept records
    std::vector<u8> o(C.d + 1); size_t from = 0; bool found = false;
    for (size_t i = 0; i < rows.size(); i++) {
        int rc = get(rows[i].key, o.data());
        if (rc == 0) { if (memcmp(o.data(), rows[i].d.data(), C.d)) vio("embedDBGet(%llu) returned other data", (unsigned long long)rows[i].key); if (!found) from = i; found = true; }
        else { if (rows.size() - i <= minKept) vio("embedDBGet(%llu) returned %d although the record must be there", (unsigned long long)rows[i].key, rc); if (found) vio("embedDBGet(%llu) returned %d although an older record is there", (unsigned long long)rows[i].key, rc); }
        if (C.k > 1) { u64 m = rows[i].key + 1; if ((i + 1 == rows.size() || rows[i + 1].key != m) && get(m, o.data()) == 0) vio("embedDBGet(%llu) found a key that was never put", (unsigned long long)m); }
    }
    if (!found) from = rows.size();
    if (get(0, o.data()) == 0) vio("embedDBGet(0) found a key that was never put");
    if (get(keyMax(), o.data()) == 0) vio("embedDBGet(maximum) found a key that was never put");
    iterate(from, 0, 0, 0, 0);
    if (!bounds || rows.empty()) return;
    std::vector<u64> ks = {rows[from < rows.size() ? from : 0].key, rows[rows.size() / 2].key, rows.back().key, rows[rows.size() / 2].key + 1};
    for (auto &a : ks) { iterate(from, &a, 0, 0, 0); iterate(from, 0, &a, 0, 0); for (auto &b : ks) iterate(from, &a, &b, 0, 0); }
    if (C.d) {
        std::vector<std::vector<u8>> ds; for (size_t i = 0; i < rows.size(); i += std::max<size_t>(2, rows.size() / 5)) ds.push_back(rows[i].d); ds.push_back(std::vector<u8>(C.d, 0)); ds.push_back(std::vector<u8>(C.d, 0xFF));
        for (auto &a : ds) { iterate(from, 0, 0, a.data(), 0); iterate(from, 0, 0, 0, a.data()); iterate(from, &ks[1], 0, a.data(), 0); iterate(from, 0, &ks[1], 0, a.data()); }
        for (auto &a : ds) for (auto &b : ds) iterate(from, 0, 0, a.data(), b.data());
    }
    if (C.f & FV) for (size_t i = rows.size() - std::min<size_t>(rows.size(), 3); i < rows.size(); i++) {      // the newest records' variable data
        u8 kb[8]; memcpy(kb, &rows[i].key, 8); Exact k(C.k, kb), d(C.d); embedDBVarDataStream *s = nullptr; int rc = 99; nObs++;
        api("embedDBGetVar", [&] { rc = embedDBGetVar(st, k, d, &s); }); contract("embedDBGetVar");
        if (rows.size() - i > minKept) { mc_free(s); continue; }
        int want = rows[i].vlen, pp = C.ps - C.k - 4, sum = 2 * pp; for (size_t j = i; j < rows.size(); j++) sum += std::max(rows[j].vlen, 0) + 4;
        if (rc != 0 && !(rc == 1 && want > 0 && sum > pp * (C.vp - C.B))) vio("embedDBGetVar(%llu) returned %d", (unsigned long long)rows[i].key, rc);
        if (rc == 0 && (s != nullptr) != (want > 0)) vio("embedDBGetVar(%llu): stream %s", (unsigned long long)rows[i].key, s ? "for a record without variable data" : "missing");
        if (s) { u8 b[64]; u32 n = 0; api("embedDBVarDataStreamRead", [&] { n = embedDBVarDataStreamRead(st, s, b, 40); }); contract("embedDBVarDataStreamRead"); if ((int)n != want) vio("variable data of key %llu has %u bytes instead of %d", (unsigned long long)rows[i].key, n, want); for (int j = 0; j < want; j++) if (b[j] != vb(i, j)) vio("variable data of key %llu differs", (unsigned long long)rows[i].key); mc_free(s); }
    }
}
static size_t perPage() { return (C.ps - header(C)) / rec(C); }
static void freshWorld() { arena_reset(); devices(); rows.clear(); }
static Cf baseOf(int f) { Cf c; memset(&c, 0, sizeof c); c.f = f; c.k = 4; c.d = 4; c.ps = 64; c.B = 2; c.N = 8; c.ip = c.vp = 4; c.bufs = need(c); c.spl = 8; c.bm = 1; c.df = c.xf = c.vf = c.fi = c.buf = 1; c.err = 1; c.lim = 200; return c; }
static std::vector<std::string> tok(const Cf &c) { std::vector<std::string> v = {"f=" + std::to_string(c.f)}; Cf b = baseOf(c.f); for (int i = 0; i < NP; i++) if (c.*PM[i] != b.*PM[i]) v.push_back(std::string(PN[i]) + "=" + std::to_string(c.*PM[i])); return v; }
// ------------------------------------------------------------------ mode=valid
static void tryCfg(const Cf &c) {
    C = c; path = tok(c); nStates++; sample(); freshWorld(); makeState(false);
    const char *w = wrong(c); std::vector<u8> before((u8 *)st, (u8 *)st + sizeof *st);
    for (auto &d : W->dev) if (d.id == 0) { d.exists = 1; d.length = std::min(4u, d.nPages); for (u32 p = 0; p < d.length; p++) memset(dev_page(d, p), 0xFF, d.pageSize); }     // a file that is there (holding nothing)
    if (!w) for (auto &d : W->dev) { d.exists = 0; d.length = 0; }
    u64 h = hash_bytes((u8 *)W + W->dev[0].off, W->size - W->dev[0].off, 7);
    int rc = 99; contractErr.clear(); api("embedDBInit", [&] { rc = embedDBInit(st, C.err); });
    if (w) {
        if (rc == 0) vio("embedDBInit accepted an invalid configuration (%s)", w);
        if (!oplog.empty()) vio("embedDBInit rejected a configuration (%s) only after %zu accesses to storage", w, oplog.size());
        if (hash_bytes((u8 *)W + W->dev[0].off, W->size - W->dev[0].off, 7) != h) vio("embedDBInit rejected a configuration (%s) but storage changed", w);
        dropState(); return;
    }
    if (rc) vio("embedDBInit returned %d for a valid configuration", rc);
    contract("embedDBInit");
    size_t rpp = perPage(), kept = rpp * (C.N - C.B - (C.f & FR ? 2 * C.B : 0)), n = std::min<size_t>((C.N + C.B + 1) * rpp + 1, c.lim);
    if (C.k == 1) n = std::min<size_t>(n, 200);
    for (size_t i = 0; i < n; i++) { putOne(); if (i == 2) observe(kept, true); }
    // every flush costs a page
    observe(kept, true); flushDb(); observe(kept - std::min(kept, rpp), true); reopen(); size_t less = std::min(kept, rpp * (C.B + 1)); observe(kept - less, true);
    putOne(); observe(kept - less, false); closeDb();
}
static void combos(Cf c, int from, int t) {
    tryCfg(c); if (!t) return;
    for (int p = from; p < NP - 1; p++) {
        std::vector<int> v; int r = header(c) + rec(c);
        switch (p) {
            case 0: v = {-128, -1, 0, 1, 2, 3, 5, 6, 7, 8, 9, 16}; break;
            case 1: v = {-128, -1, 0, 1, 2, 3, 7, 8, 12, 30, 127}; break;
            case 2: v = {1, 6, r - 1, r, r + 1, 16 + c.bm - 1, 16 + c.bm, c.k + 4, c.k + 5, 2 * rec(c) + header(c), 128, 512}; break;
            case 3: v = {0, 1, 3, 4, 5, 8}; break;
            case 4: v = {0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 12, 16, 20, 1 << 26, 1 << 30}; break;
            case 5: v = {0, 1, 2, 3, 5, 6, 7, 8, 10, 12, 1 << 26, 1 << 30}; break;
            case 6: v = {0, 1, 2, 3, 5, 6, 7, 8, 10, 12, 1 << 22, (1 << 26) - 2, 1 << 26, (1 << 26) + 2, 1 << 30}; break;
            case 7: v = {-1, 0, 1, 2, 3, 4, 5, 6, 7, 9}; break;
            case 8: v = {0, 1, 3, 4, 5, 9, 64}; break;
            case 9: v = {-1, 0, 2, 3, 8}; break;
            case 15: v = {0, 2, 64}; break;
            default: v = {0};
        }
        std::set<int> s(v.begin(), v.end());
        for (int x : s) { if (x == c.*PM[p]) continue; Cf e = c; e.*PM[p] = x; if (e.ps < 1) continue; combos(e, p + 1, t - 1); }
    }
}
// erase blocks of more than 255 pages, and the largest
static void blocks(int f, bool all) {
    for (int b : {127, 128, 255, 256, 257, 32767, 32768, 65535}) for (int n = 1; n <= 5; n++) for (int x = 1; x <= (f & FX ? 3 : 1); x++) for (int v = 1; v <= (f & FV ? 3 : 1); v++) {
        bool whole = (u32)(n * b) <= maxPages && (u32)(x * b) <= maxPages && (u32)(v * b) <= maxPages;
        if (!whole && f & FR && n >= 4) continue;       // the temporary pages go behind the pages that are stored
        Cf c = baseOf(f); c.B = b; c.N = n * b; c.ip = x * b; c.vp = v * b; if (all && wrong(c)) continue;
        c.ps = all ? std::max({header(c) + rec(c), 16 + c.bm, 12}) : 64; c.lim = all && whole ? 2000 : 200; tryCfg(c);
    }
}
// ------------------------------------------------------------------ mode=open: creating a file fails
static void tryOpen(const Cf &c, int dev, int have) {       // have: bit mask of files that hold a database already
    C = c; path = tok(c); path.push_back("open=" + std::to_string(dev) + "." + std::to_string(have)); nStates++; nFault++; sample(); freshWorld();
    openDb(false); for (int i = 0; i < 5; i++) putOne(); flushDb(); closeDb();
    for (int i = 0; i < 3; i++) if (!(have >> i & 1)) { Dev &d = W->dev[i]; d.exists = 0; d.length = 0; d.writes = d.erases = 0; dev_wipe(d); }
    if (!(have & 1)) rows.clear();
    makeState(false); failTypes = 1 << OT_OPEN; failDevs = 1 << dev; failAt = 0; failSticky = 1; failCount = 0; int rc = 99; contractErr.clear();
    api("embedDBInit", [&] { rc = embedDBInit(st, C.err); }); failAt = -1; failTypes = 0;
    if (rc == 0) vio("embedDBInit succeeded although file %d could not be opened", dev);
    for (auto &o : oplog) if ((o.type == OT_WRITE || o.type == OT_ERASE) && o.dev == dev) vio("embedDBInit wrote to file %d, which could not be opened", dev);
    contractErr.clear(); dropState(); dev_powercut();
    openDb(false); observe(rows.size(), false); putOne(); observe(rows.size(), false); closeDb();
}
// ------------------------------------------------------------------ mode=grid: results do not depend on the features
static void runOps(const Cf &c, const std::string &ops) {
    C = c; path = tok(c); path.push_back("ops=" + ops); nStates++; sample(); freshWorld(); openDb(true);
    for (char o : ops) { if (o == 'p') putOne(); else if (o == 'f') flushDb(); else { if (o == 'r') flushDb(); reopen(); } }
    observe(rows.size(), true); closeDb();
}
static void histories(const Cf &c, int L, int D, const std::string &sofar, int puts) {
    runOps(c, sofar + std::string(L - puts, 'p'));
    if (D) for (int i = puts; i <= L; i++) for (char o : std::string(c.f & FR ? "frc" : "fr")) histories(c, L, D - 1, sofar + std::string(i - puts, 'p') + o, i);
}
static bool makeGrid(Cf &c, int f, int k, int d, int bm, int slack, int rpp) {
    if (f & FC && f & FN) return false;
    if (!(f & (FX | FB)) && bm != 1) return false;
    c = baseOf(f); c.k = k; c.d = d; c.bm = bm; c.N = 40; c.ip = 12; c.vp = 40; c.ps = header(c) + rpp * rec(c) + (slack ? rec(c) - 1 : 0);
    return !wrong(c);
}
int main(int argc, char **argv) {
    unitInit(argc, argv); maxPages = argI("pages", 500); u32 pg[3] = {maxPages, maxPages, maxPages}; W = world_create(0x100000000000ull, 64, pg, 1024, 1, argI("kind", 0));
    std::string mode = argS("mode", "valid"), viol; int f0 = argI("f0", 0), f1 = argI("f1", 127);
    try {
        if (replaying) {
            Cf c; std::string ops; int dev = -1, have = 0; bool o = false;
            for (auto &t : split(A["replay"], ' ')) {
                size_t e = t.find('='); std::string n = t.substr(0, e), v = t.substr(e + 1);
                if (n == "f") c = baseOf(atoi(v.c_str())); else if (n == "ops") { ops = v; o = true; } else if (n == "open") { dev = v[0] - '0'; have = v[2] - '0'; }
                else for (int i = 0; i < NP; i++) if (n == PN[i]) c.*PM[i] = atoi(v.c_str());
                printf("%s\n", t.c_str());
            }
            if (dev >= 0) tryOpen(c, dev, have); else if (o) runOps(c, ops); else tryCfg(c);
        } else if (mode == "valid") { for (int f = f0; f <= f1; f++) { combos(baseOf(f), 0, argI("t", 1)); blocks(f, false); } }
        else if (mode == "blocks") for (int f = f0; f <= f1; f++) blocks(f, true);
        else if (mode == "open") {
            for (int f = f0; f <= f1; f++) for (int dev = 0; dev < 3; dev++) { if ((dev == 1 && !(f & FX)) || (dev == 2 && !(f & FV))) continue; for (int have = 0; have < 8; have++) if (!(have >> dev & 1)) tryOpen(baseOf(f), dev, have); }
        } else {
            for (auto &ks : split(argS("k", "1,2,3,4,5,6,7,8"), ',')) for (auto &ds : split(argS("d", "1,2,4,12"), ',')) for (auto &bs : split(argS("bm", "1,2,8"), ',')) for (int sl = 0; sl < argI("slacks", 2); sl++) for (int f = f0; f <= f1; f++) {
                Cf c; if (makeGrid(c, f, atoi(ks.c_str()), atoi(ds.c_str()), atoi(bs.c_str()), sl, argI("rpp", 3))) histories(c, argI("L", 8), argI("D", 1), "", 0);
            }
        }
    } catch (Violation &v) { viol = v.what; }
    return finish(viol);
}
