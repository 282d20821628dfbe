// Every bounded sequence of calls on the supplied file interfaces, over the storage library underneath
// (stdio via cookies, the SdFat class, the dataflash driver, or real files), with every single call of
// that library failing once.  Oracle: an array of pages per file.
#include "unit.h"
#include "stub/SdFat.h"
#include <memory>
extern "C" {
embedDBFileInterface *getFileInterface(); embedDBFileInterface *getMockEraseFileInterface(); void *setupFile(char *); void tearDownFile(void *);
embedDBFileInterface *getSDInterface(); void *setupSDFile(char *); void tearDownSDFile(void *);
embedDBFileInterface *getDataflashInterface(); void *setupDataflashFile(uint32_t, uint32_t); void tearDownDataflashFile(void *);
void init_sdcard(void *); void init_df(void *);
FILE *mc_fopen(const char *, const char *);
FILE *mc_fopen64(const char *a, const char *b) { return mc_fopen(a, b); }
void *mc_new(size_t n) { auto h = oomHook; oomHook = nullptr; void *p = mc_malloc(n); oomHook = h; return p; }   // new does not return without memory
void mc_delete(void *p) { mc_free(p); }
void mc_delete2(void *p, size_t) { mc_free(p); }
}
static std::string WHAT; static u32 PS; static u32 BLK;
enum { DESK, MOCK, SDK, DFK, REAL, REALMOCK }; static int kind;
static bool isDesk() { return kind == DESK || kind == MOCK; }

// ---------------------------------------------------------------- storage below, with faults
static bool counting; static i64 callNo, failCall; static int failStyle; static bool fired, firedInOp;
static bool oomMode;            // the failing calls are those of the allocator, not those of the storage library
static bool oomAsk() { if (!counting) return false; i64 i = callNo++; if (failCall >= 0 && (i == failCall || (failStyle && i > failCall))) { fired = firedInOp = true; return true; } return false; }
static bool faultNow() { if (!counting || oomMode) return false; if (callNo++ == failCall) { fired = firedInOp = true; return true; } return false; }
const u32 CH = 256;
struct Store {
    bool exists = false; u64 len = 0; std::map<u64, std::vector<u8>> b; int opens = 0;
    u64 durLen = 0; std::map<u64, std::vector<u8>> dur;       // SD: what sync() made durable
    void rd(u64 p, u8 *o, size_t n) { for (size_t i = 0; i < n; i++) { auto it = b.find((p + i) / CH); o[i] = it == b.end() ? 0 : it->second[(p + i) % CH]; } }
    void wr(u64 p, const u8 *s, size_t n) { size_t i = 0; while (i < n) { auto &v = b[(p + i) / CH]; if (v.empty()) v.assign(CH, 0); size_t o = (p + i) % CH, m = std::min<size_t>(n - i, CH - o); memcpy(&v[o], s + i, m); i += m; } if (p + n > len) len = p + n; }
    void trunc() { b.clear(); len = 0; }
    bool same(u64 p, const u8 *s, size_t n, bool d) { auto &m = d ? dur : b; if ((d ? durLen : len) < p + n) return false; for (size_t i = 0; i < n; i++) { auto it = m.find((p + i) / CH); if ((it == m.end() ? 0 : it->second[(p + i) % CH]) != s[i]) return false; } return true; }
};
static std::map<std::string, Store> stores;
static Store sdTab[8]; static std::vector<std::string> sdNames; static int openHandles;
struct Ck { Store *s; u64 pos; bool wr; };
static ssize_t ckRead(void *c, char *b, size_t n) { Ck *k = (Ck *)c; if (faultNow()) { if (failStyle == 1 && k->pos < k->s->len) { n = std::min<u64>(n, k->s->len - k->pos) / 2; k->s->rd(k->pos, (u8 *)b, n); k->pos += n; return n; } errno = EIO; return -1; } if (k->pos >= k->s->len) return 0; n = std::min<u64>(n, k->s->len - k->pos); k->s->rd(k->pos, (u8 *)b, n); k->pos += n; return n; }
static ssize_t ckWrite(void *c, const char *b, size_t n) { Ck *k = (Ck *)c; if (!k->wr) return 0; if (faultNow()) { n = failStyle == 1 ? n / 2 : 0; } k->s->wr(k->pos, (const u8 *)b, n); k->pos += n; return n; }
static int ckSeek(void *c, off64_t *o, int w) { Ck *k = (Ck *)c; if (faultNow()) { errno = EIO; return -1; } i64 p = w == SEEK_SET ? *o : w == SEEK_CUR ? (i64)k->pos + *o : (i64)k->s->len + *o; if (p < 0) { errno = EINVAL; return -1; } k->pos = p; *o = p; return 0; }
static int ckClose(void *c) { Ck *k = (Ck *)c; k->s->opens--; openHandles--; delete k; if (faultNow()) { errno = EIO; return -1; } return 0; }
FILE *mc_fopen(const char *name, const char *mode) {
    if (kind == REAL || kind == REALMOCK) return fopen(name, mode);
    Store &s = stores[name]; bool plus = strchr(mode, '+');
    if (faultNow()) { errno = EMFILE; return nullptr; }
    if (mode[0] == 'r') { if (!s.exists) { errno = ENOENT; return nullptr; } } else if (mode[0] == 'w') { s.exists = true; s.trunc(); } else s.exists = true;
    s.opens++; openHandles++;
    Ck *k = new Ck{&s, mode[0] == 'a' ? s.len : 0, plus || mode[0] != 'r'};
    cookie_io_functions_t io = {ckRead, ckWrite, ckSeek, ckClose};
    return fopencookie(k, mode, io);
}
static Store &sdS(int id) { return stores[sdNames[id]]; }
File32 SdFat32::open(const char *name, int flags) {
    File32 f; std::string n = name; Store &s = stores[n];
    if (faultNow()) return f;
    if (!s.exists && !(flags & O_CREAT)) return f;
    if (flags & O_TRUNC) s.trunc();
    s.exists = true;
    auto it = std::find(sdNames.begin(), sdNames.end(), n); f.id = it - sdNames.begin(); if (it == sdNames.end()) sdNames.push_back(n);
    s.opens++; openHandles++; return f;
}
bool SdFat32::exists(const char *n) { return stores[n].exists; }
bool SdFat32::remove(const char *n) { stores[n] = Store(); return true; }
u32 File32::fileSize() const { return isOpen() ? sdS(id).len : 0; }
bool File32::seek(u32 p) { if (!isOpen() || faultNow()) return false; if (p == pos) return true; if (p > fileSize()) return false; pos = p; return true; }
int File32::read(void *b, size_t n) { if (!isOpen()) return -1; Store &s = sdS(id); if (faultNow()) { if (failStyle == 1 && pos < s.len) { n = std::min<u64>(n, s.len - pos) / 2; s.rd(pos, (u8 *)b, n); pos += n; return n; } return -1; } if (pos >= s.len) return 0; n = std::min<u64>(n, s.len - pos); s.rd(pos, (u8 *)b, n); pos += n; return n; }
size_t File32::write(const void *b, size_t n) { if (!isOpen()) return 0; Store &s = sdS(id); if (faultNow()) { if (failStyle == 1) { s.wr(pos, (const u8 *)b, n / 2); pos += n / 2; } if (failStyle == 2) { n /= 2; s.wr(pos, (const u8 *)b, n); pos += n; return n; } return 0; } s.wr(pos, (const u8 *)b, n); pos += n; return n; }
bool File32::sync() { if (!isOpen() || faultNow()) return false; Store &s = sdS(id); s.dur = s.b; s.durLen = s.len; return true; }
bool File32::close() { if (!isOpen()) return false; Store &s = sdS(id); id = -1; s.opens--; openHandles--; if (faultNow()) { s.b = s.dur; s.len = s.durLen; return false; } s.dur = s.b; s.durLen = s.len; return true; }
bool File32::truncate(u32 n) { if (!isOpen() || faultNow()) return false; Store &s = sdS(id); if (n > s.len) return false; if (n == 0) s.trunc(); else { fprintf(stderr, "stub: truncate\n"); _exit(3); } if (pos > n) pos = n; return true; }
struct memory_t { int dummy; };
const int CHIP = 32; static std::vector<u8> chip[CHIP], dbuf[2];
extern "C" {
void df_erase_chip(memory_t *) { for (auto &p : chip) p.assign(PS, 0xFF); }
int get_ready_status(memory_t *) { return 1; }
static void chk(int p, int off, int n) { if (p < 0 || p >= CHIP || off < 0 || off + n > (int)PS) { fprintf(stderr, "FATAL dataflash access out of range\n"); abort(); } }
void df_main_memory_read(memory_t *, int p, int off, u8 *o, int n) { chk(p, off, n); memcpy(o, &chip[p][off], n); }
void df_buffer_1_write(memory_t *, int off, u8 *s, int n) { chk(0, off, n); memcpy(&dbuf[0][off], s, n); }
void df_buffer_2_write(memory_t *, int off, u8 *s, int n) { chk(0, off, n); memcpy(&dbuf[1][off], s, n); }
void df_buffer_1_read(memory_t *, int off, u8 *o, int n) { chk(0, off, n); memcpy(o, &dbuf[0][off], n); }
void df_buffer_2_read(memory_t *, int off, u8 *o, int n) { chk(0, off, n); memcpy(o, &dbuf[1][off], n); }
void df_MM_to_buffer_1(memory_t *, int p) { chk(p, 0, 0); dbuf[0] = chip[p]; }
void df_MM_to_buffer_2(memory_t *, int p) { chk(p, 0, 0); dbuf[1] = chip[p]; }
void df_buffer_1_to_MM_erase(memory_t *, int p) { chk(p, 0, 0); chip[p] = dbuf[0]; }
void df_buffer_2_to_MM_erase(memory_t *, int p) { chk(p, 0, 0); chip[p] = dbuf[1]; }
void df_buffer_1_to_MM_no_erase(memory_t *, int p) { chk(p, 0, 0); for (u32 i = 0; i < PS; i++) chip[p][i] &= dbuf[0][i]; }
void df_buffer_2_to_MM_no_erase(memory_t *, int p) { chk(p, 0, 0); for (u32 i = 0; i < PS; i++) chip[p][i] &= dbuf[1][i]; }
int serial_printf_c(const char *, ...) { return 0; }
}

// ---------------------------------------------------------------- oracle
enum { ABS, VAL, UNK };
struct Pg { int st = ABS; int v = 0; bool unsynced = false; };
struct MF { bool fresh = false, exists = false, existsKnown = true, open = false; std::map<u32, Pg> p; u32 len = 0; bool lenKnown = true; void *h = nullptr; std::string name; };
static MF F[2]; static embedDBFileInterface *fi; static int nv; static u32 maxPage;
static bool isMock() { return kind == MOCK || kind == REALMOCK; }
static void content(int v, u32 page, u8 *o) { if (v < 0) { memset(o, 1, PS); return; } for (u32 i = 0; i < PS; i++) o[i] = (u8)(v * 37 + page * 11 + i * 7 + (i >> 8) + 1); }
static Pg get(MF &f, u32 p) { auto it = f.p.find(p); if (it != f.p.end()) return it->second; Pg g; g.st = p < f.len || !f.lenKnown ? UNK : ABS; return g; }
static void loseUnsynced(MF &f) { bool any = f.fresh; f.fresh = false; for (auto &x : f.p) if (x.second.unsynced) { x.second.st = UNK; x.second.unsynced = false; any = true; } if (any) f.lenKnown = false; }
static void mkHandles(int i) {
    MF &f = F[i]; u32 base = W->liveAllocs; bool was = firedInOp; firedInOp = false;
    for (int t = 0; t < 2; t++) {
    api("setup", [&] { f.h = kind == DFK ? setupDataflashFile(i ? 7 : 3, 4) : kind == SDK ? setupSDFile(&f.name[0]) : setupFile(&f.name[0]); });
    if (f.h) break;
    if (!firedInOp) vio("setup of a file handle failed"); if (W->liveAllocs != base) vio("setup of a file handle failed for lack of memory and left %d heap blocks allocated", (int)W->liveAllocs - (int)base);
    firedInOp = false; failCall = -1;   // enough memory again
    }
    firedInOp = was;
}
static void rcCheck(const char *nm, int rc) { if (rc != 0 && rc != 1) vio("%s returned %d; the interface only knows 1 (success) and 0 (failure)", nm, rc); }
static void synced(MF &f, const char *nm) {   // everything acknowledged must be in the storage now
    std::vector<u8> c(PS); f.fresh = false;
    for (auto &x : f.p) if (x.second.st == VAL) {
        if (x.second.unsynced && kind != REAL && kind != REALMOCK && kind != DFK) { content(x.second.v, x.first, c.data()); if (!stores[f.name].same((u64)x.first * PS, c.data(), PS, kind == SDK)) vio("%s succeeded but page %u, written before, is not in the storage", nm, x.first); }
        x.second.unsynced = false;
    }
}
static void doRead(MF &f, u32 p) {
    nObs++; u8 *b = (u8 *)malloc(PS + 16); std::unique_ptr<u8, void (*)(void *)> g(b, free); memset(b, 0x3C, PS + 16); int rc = 99;
    api("read", [&] { rc = fi->read(b, p, PS, f.h); });
    rcCheck("read", rc);
    if (!rc && firedInOp) loseUnsynced(f);      // a reported failure may have cost what was not flushed yet
    for (int i = 0; i < 16; i++) if (b[PS + i] != 0x3C) vio("read of page %u wrote behind the page buffer", p);
    Pg g2 = get(f, p); std::vector<u8> c(PS);
    if (kind == DFK) {
        if (p >= 4) { if (rc) vio("read of page %u outside the area of 4 pages succeeded", p); return; }
        if (!rc) vio("read of page %u failed", p);
    }
    if (g2.st == VAL) {
        if (!rc && !firedInOp) vio("read of page %u failed although it was written successfully", p);
        content(g2.v, p, c.data());
        if (rc && memcmp(b, c.data(), PS)) vio(g2.v < 0 ? "read of page %u did not return an erased page" : "read of page %u returned something other than what was last written to it", p);
    } else if (g2.st == ABS && kind != DFK && rc) vio("read of page %u succeeded although the file ends before it", p);
}
static bool enabled(const std::string &t) {
    MF &f = F[t[0] == 'B']; char c = t[1];
    if (c == 'o' || c == 'w' || c == 'm') return !f.open;
    if (c == 't') return true;
    if (c == 'E') return f.open && (kind != DFK || atoi(t.c_str() + 2) + BLK <= 4);
    return f.open;
}
static void doOp(const std::string &t) {
    MF &f = F[t[0] == 'B']; char c = t[1]; u32 a = t.size() > 2 ? strtoul(t.c_str() + 2, 0, 10) : 0; int rc = 99; firedInOp = false; nTrans++;
    switch (c) {
        case 'o':
            api("open", [&] { rc = fi->open(f.h, EMBEDDB_FILE_MODE_R_PLUS_B); }); rcCheck("open", rc);
            if (kind == DFK) { if (rc != 1) vio("open failed"); f.open = true; break; }
            if (!firedInOp && f.existsKnown && rc != (f.exists ? 1 : 0)) vio(f.exists ? "open for reading and writing failed although the file exists" : "open for reading and writing succeeded although the file does not exist");
            if (firedInOp && f.existsKnown && !f.exists && rc) vio("open for reading and writing succeeded although the file does not exist");
            f.open = rc; break;
        case 'w':
            api("open", [&] { rc = fi->open(f.h, EMBEDDB_FILE_MODE_W_PLUS_B); }); rcCheck("open", rc);
            if (!firedInOp && rc != 1) vio("open for creation failed");
            if (kind == DFK) { f.open = true; break; }
            f.open = rc; 
            if (rc) { f.p.clear(); f.len = 0; f.lenKnown = true; f.exists = f.existsKnown = true; f.fresh = kind != DFK; } else { for (auto &x : f.p) x.second.st = UNK, x.second.unsynced = false; f.lenKnown = false; f.existsKnown = f.existsKnown && f.exists; }
            break;
        case 'm':
            api("open", [&] { rc = fi->open(f.h, 7); });
            if (kind == DFK) { f.open = rc == 1; break; }
            if (rc != 0) vio("open with an unknown mode returned %d", rc);
            break;
        case 'c':
            api("close", [&] { rc = fi->close(f.h); }); rcCheck("close", rc); f.open = false;
            if (!firedInOp && rc != 1) vio("close failed");
            if (rc) synced(f, "close"); else loseUnsynced(f);
            break;
        case 'f':
            api("flush", [&] { rc = fi->flush(f.h); }); rcCheck("flush", rc);
            if (!firedInOp && rc != 1) vio("flush failed");
            if (rc) synced(f, "flush"); else loseUnsynced(f);
            break;
        case 'R': doRead(f, a); break;
        case 'W': {
            std::vector<u8> v(PS); int val = nv++; content(val, a, v.data()); Exact e(PS, v.data());
            api("write", [&] { rc = fi->write(e, a, PS, f.h); }); rcCheck("write", rc);
            if (memcmp(e.p, v.data(), PS)) vio("write of page %u changed the caller's buffer", a);
            if (kind == DFK && a >= 4) { if (rc) vio("write of page %u outside the area of 4 pages succeeded", a); break; }
            if (kind == SDK && ((u64)a + 1) * PS > 0xFFFFFFFFu) { if (rc) vio("write of page %u, which lies behind the end of the largest possible file, succeeded", a); break; }
            if (!firedInOp && rc != 1) vio("write of page %u failed", a);
            for (u32 q = f.len; q < a && f.lenKnown && q < f.len + 64; q++) { f.p[q].st = UNK; }
            if (f.lenKnown && (a >= f.len)) f.len = rc ? a + 1 : f.len;
            Pg &g = f.p[a]; g.v = val; g.st = rc ? VAL : UNK; g.unsynced = rc && kind != DFK;
            if (!rc) { f.lenKnown = false; loseUnsynced(f); }
            break;
        }
        case 'E': {
            api("erase", [&] { rc = fi->erase(a, a + BLK, PS, f.h); }); rcCheck("erase", rc);
            if (!firedInOp && rc != 1) vio("erase of pages %u..%u failed", a, a + BLK - 1);
            for (u32 q = a; q < a + BLK; q++) { Pg &g = f.p[q]; g.st = rc && isMock() ? VAL : UNK; g.v = -1; g.unsynced = rc && isMock(); }   // the simulated erase fills the pages with ones
            f.lenKnown = false;
            if (!rc) loseUnsynced(f);
            break;
        }
        case 't': {
            bool was = f.open;
            api("tear down", [&] { kind == DFK ? tearDownDataflashFile(f.h) : kind == SDK ? tearDownSDFile(f.h) : tearDownFile(f.h); });
            f.open = false; if (was) { if (firedInOp) loseUnsynced(f); else synced(f, "tear down"); }
            mkHandles(t[0] == 'B'); break;
        }
    }
    memCheck("file interface");
}
static std::vector<std::string> alpha; static std::vector<u32> pages;
static void reset() {
    arena_reset(); stores.clear(); sdNames.clear(); openHandles = 0; nv = 1; counting = false; callNo = 0; fired = firedInOp = false;
    for (auto &p : chip) p.assign(PS, 0xFF); for (auto &b : dbuf) b.assign(PS, 0xAA);
    for (int i = 0; i < 2; i++) { F[i] = MF(); F[i].name = i ? "fileB.bin" : "fileA.bin"; if (kind == REAL || kind == REALMOCK) unlink(F[i].name.c_str()); }
    static SdFat32 card; static memory_t mem; init_sdcard(&card); init_df(&mem);
    counting = oomMode;
    for (int t = 0; t < 2; t++) {
    api("getInterface", [&] { fi = kind == SDK ? getSDInterface() : kind == DFK ? getDataflashInterface() : kind == MOCK || kind == REALMOCK ? getMockEraseFileInterface() : getFileInterface(); });
    if (fi || !firedInOp) break;
    if (W->liveAllocs) vio("getting the interface failed for lack of memory and left %u heap blocks allocated", W->liveAllocs);
    firedInOp = false; failCall = -1; }
    if (!fi || !fi->read || !fi->write || !fi->erase || !fi->open || !fi->close || !fi->flush) vio("the interface lacks a function");
    mkHandles(0); mkHandles(1);
}
static void final() {       // with working storage: everything known must be there, now and after close and reopen
    counting = false; firedInOp = false;
    for (int i = 0; i < 2; i++) {
        MF &f = F[i]; std::string q = i ? "B" : "A"; char t[24];
        for (int round = 0; round < 2; round++) {
            if (!f.open) { if (!f.existsKnown || (!f.exists && round)) continue; doOp(q + "o"); }
            if (!f.open) continue;
            for (u32 p : pages) { snprintf(t, sizeof t, "%sR%u", q.c_str(), p); doOp(t); snprintf(t, sizeof t, "%sR%u", q.c_str(), p + 1); doOp(t); }
            doOp(q + "c");
        }
    }
    if (kind == DFK) for (int p = 0; p < CHIP; p++) if (p < 3 || p >= 11) for (u8 x : chip[p]) if (x != 0xFF) vio("chip page %d outside both areas was written", p);
    for (auto &f : F) { if (kind == DFK) tearDownDataflashFile(f.h); else if (kind == SDK) tearDownSDFile(f.h); else tearDownFile(f.h); }
    mc_free(fi);
    if (openHandles) vio("%d files are still open after tear down", openHandles);
    if (W->liveAllocs) vio("%u heap blocks are still allocated after tear down", W->liveAllocs);
    memCheck("tear down");
}
static i64 runSeq(const std::vector<std::string> &s, i64 fc, int style) {
    failCall = fc; failStyle = style; reset(); counting = true; nStates++; if (fc >= 0) nFault++;
    for (auto &t : s) { if (!enabled(t)) continue; doOp(t); if (replaying && argI("verbose", 1)) printf("%s%s\n", t.c_str(), firedInOp ? "   <- a storage call failed in it" : ""); }
    i64 n = callNo; failCall = -1; final(); return n;
}
// which operations are possible next is a function of the oracle's open flags only when nothing fails
static void dfs(std::vector<std::string> &s, int depth, bool faults) {
    bool oa = false, ob = false; for (auto &t : s) { bool &o = t[0] == 'B' ? ob : oa; if (t[1] == 'w' || t[1] == 'o') o = true; if (t[1] == 'c' || t[1] == 't') o = false; }
    for (auto &t : alpha) {
        bool open = t[0] == 'B' ? ob : oa; char c = t[1];
        if (c == 'o' || c == 'w' || c == 'm' ? open : c == 't' ? s.empty() : !open) continue;
        s.push_back(t); path = s;
        i64 n = runSeq(s, -1, 0); sample();
        if (faults && depth == 1) for (i64 i = 0; i < n; i++) for (int st = 0; st < (kind == SDK && !oomMode ? 3 : 2); st++) { path = s; path.push_back("~" + std::to_string(i) + "." + std::to_string(st)); runSeq(s, i, st); }
        if (depth > 1) dfs(s, depth - 1, faults);
        s.pop_back();
    }
}
int main(int argc, char **argv) {
    unitInit(argc, argv);
    WHAT = argS("what", "desk"); PS = argI("ps", 64); BLK = argI("B", 2);
    kind = WHAT == "desk" ? DESK : WHAT == "mock" ? MOCK : WHAT == "sd" ? SDK : WHAT == "df" ? DFK : WHAT == "real" ? REAL : WHAT == "realmock" ? REALMOCK : -1; if (kind < 0) return 3;
    u32 pg[3] = {1, 1, 1}; W = world_create(0x100000000000ull, 64, pg, 64, 1, 0);
    for (auto &x : split(argS("pages", "0,1,3"), ',')) pages.push_back(strtoul(x.c_str(), 0, 10));
    for (auto &x : split(argS("ops", "Ao,Aw,Ac,Af,AR0,AR1,AR3,AW0,AW1,AW3,AE0,At"), ',')) alpha.push_back(x);
    oomMode = argI("oom", 0); if (oomMode) oomHook = oomAsk;
    std::string viol, dir;
    if (kind == REAL || kind == REALMOCK) { char d[] = "/tmp/filexXXXXXX"; if (!mkdtemp(d) || chdir(d)) { perror("scratch"); return 3; } dir = d; }
    std::vector<std::string> s;
    for (auto &x : split(argS("pre", ""), ',')) s.push_back(x);
    try {
        if (replaying) {
            i64 fc = -1; int st = 0;
            for (auto &t : split(A["replay"], ' ')) if (t[0] == '~') { fc = atoll(t.c_str() + 1); st = t.back() - '0'; } else s.push_back(t);
            s.erase(s.begin(), s.begin() + split(argS("pre", ""), ',').size());
            runSeq(s, fc, st);
        } else dfs(s, argI("n", 5), argI("fault", 0));
    } catch (Violation &v) { viol = v.what; }
    if (!dir.empty()) { unlink("fileA.bin"); unlink("fileB.bin"); if (chdir("/") == 0) rmdir(dir.c_str()); }
    return finish(viol);
}
