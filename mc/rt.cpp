#include "rt.h"

World *W;
World *W2[2];
u8 heapFill = 0xA5;
__attribute__((noinline)) void stack_fill() { u8 b[3072]; memset(b, heapFill, sizeof b); asm volatile("" ::"r"(b) : "memory"); }
int crashAt = -1, failAt = -1, failTypes = 0, failDevs = 7, failSticky = 0, opCount = 0, failCount = 0;
bool failHappened = false, failWrote = false;
int crashPart = 0, crashIn = -1;
int failCut = 0;
std::vector<DevOp> oplog;
std::string contractErr;
char stopMsg[256];
u64 nGuarded;

static sigjmp_buf jb;
static volatile int inGuard = 0;
static volatile int hangTicks = 0;
static u32 guardDevOps = 0;

static void stop(int kind, const char *msg) {
    snprintf(stopMsg, sizeof stopMsg, "%s", msg);
    if (!inGuard) { fprintf(stderr, "FATAL outside guard: %s\n", msg); _exit(3); }
    siglongjmp(jb, kind);
}
static void on_sig(int s) {
    if (!inGuard) { const char m[] = "FATAL: signal in harness\n"; ssize_t r = write(2, m, sizeof m - 1); (void)r; _exit(3); }
    snprintf(stopMsg, sizeof stopMsg, "signal %d (%s)", s, s == SIGSEGV ? "SIGSEGV" : s == SIGFPE ? "SIGFPE" : s == SIGABRT ? "SIGABRT" : s == SIGBUS ? "SIGBUS" : "SIGILL");
    siglongjmp(jb, SK_SIGNAL);
}
static volatile u64 tickGuard = 0;
static void on_tick(int) {
    if (inGuard) {
        if (tickGuard == nGuarded) {
            if (++hangTicks >= 4) { snprintf(stopMsg, sizeof stopMsg, "one call used >6s of CPU (hang)"); siglongjmp(jb, SK_HANG); }
        } else { tickGuard = nGuarded; hangTicks = 0; }
    }
}
void rt_init() {
    stack_t ss; memset(&ss, 0, sizeof ss);
    ss.ss_sp = malloc(1 << 16); ss.ss_size = 1 << 16; sigaltstack(&ss, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof sa);
    sa.sa_handler = on_sig; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGFPE, SIGABRT, SIGBUS, SIGILL}) sigaction(s, &sa, nullptr);
    memset(&sa, 0, sizeof sa); sa.sa_handler = on_tick; sa.sa_flags = SA_ONSTACK | SA_NODEFER | SA_RESTART;
    sigaction(SIGVTALRM, &sa, nullptr);
    struct itimerval it; it.it_interval.tv_sec = 2; it.it_interval.tv_usec = 0; it.it_value = it.it_interval;
    setitimer(ITIMER_VIRTUAL, &it, nullptr);
}
int guarded_run(void (*tramp)(void *), void *ctx) {
    oplog.clear(); opCount = 0; failHappened = failWrote = false; guardDevOps = 0; stopMsg[0] = 0;
    nGuarded++;
    int k = sigsetjmp(jb, 0);
    if (k == 0) { inGuard = 1; tramp(ctx); inGuard = 0; return 0; }
    inGuard = 0;
    return k;
}

// ---------------------------------------------------------------- heap
// block: [hdr 16: u32 size, u32 state, u64 canary][payload rounded to 16][canary 16]
static const u64 CAN = 0xC0FFEE11DEADBEEFull;
struct Hdr { u32 size, state; u64 can; };
u32 ARENA = 20480;
bool capturePrint = false; std::string printed;
static u8 *arena() { return (u8 *)W + W->arenaOff; }
static u32 foot(u32 sz) { return 16 + ((sz + 15) & ~15u) + 16; }
static void setTail(u8 *b, u32 sz) {
    u8 *p = b + 16 + sz; u8 *e = b + foot(sz);
    while (p < e) *p++ = 0xCB;
}
static bool tailOk(u8 *b, u32 sz) {
    u8 *p = b + 16 + sz; u8 *e = b + foot(sz);
    while (p < e) if (*p++ != 0xCB) return false;
    return true;
}
bool (*oomHook)() = nullptr;
static bool oomNow() {               // failTypes bit 7: allocations
    if (!inGuard) return false;
    if (oomHook && oomHook()) return true;
    if (failTypes & 128) { int i = failCount++; if (failAt >= 0 && (i == failAt || (failSticky && i > failAt))) { failHappened = true; return true; } }
    return false;
}
void *mc_malloc(size_t n) {
    if (!W) return malloc(n);
    if (oomNow()) return nullptr;
    if (n > ARENA) return nullptr;
    u32 sz = n ? (u32)n : 1;
    u8 *a = arena(); u32 o = 0;
    // first fit over freed blocks of the same footprint, else extend
    while (o < W->arenaTop) {
        Hdr *h = (Hdr *)(a + o);
        if (h->can != CAN) stop(SK_HEAP, "heap header overwritten");
        u32 f = foot(h->size);
        if (h->state == 0 && foot(sz) == f) {
            h->size = sz; h->state = 1; memset(a + o + 16, heapFill, sz); setTail(a + o, sz);
            W->liveAllocs++; W->liveBytes += sz; W->totalAllocs++;
            return a + o + 16;
        }
        o += f;
    }
    if (W->arenaTop + foot(sz) > ARENA) stop(SK_HEAP, "heap exhausted (unbounded allocation)");
    Hdr *h = (Hdr *)(a + W->arenaTop); h->size = sz; h->state = 1; h->can = CAN;
    memset(a + W->arenaTop + 16, heapFill, sz); setTail(a + W->arenaTop, sz);
    void *r = a + W->arenaTop + 16;
    W->arenaTop += foot(sz); W->liveAllocs++; W->liveBytes += sz; W->totalAllocs++;
    return r;
}
void *mc_calloc(size_t n, size_t m) { void *p = mc_malloc(n * m); if (p) memset(p, 0, n * m); return p; }
void mc_free(void *p) {
    if (!p) return;
    if (!W) { free(p); return; }
    u8 *a = arena();
    if ((u8 *)p < a + 16 || (u8 *)p >= a + W->arenaTop) stop(SK_HEAP, "free of a pointer that was not allocated");
    u32 o = 0; bool found = false;
    while (o < W->arenaTop) {
        Hdr *h = (Hdr *)(a + o);
        if (h->can != CAN) stop(SK_HEAP, "heap header overwritten");
        if (a + o + 16 == (u8 *)p) { found = true; break; }
        o += foot(h->size);
    }
    if (!found) stop(SK_HEAP, "free of a pointer that was not allocated");
    Hdr *h = (Hdr *)(a + o);
    if (h->state != 1) stop(SK_HEAP, "double free");
    if (!tailOk(a + o, h->size)) stop(SK_HEAP, "heap block overrun");
    h->state = 0; memset(p, 0xDD, h->size);
    W->liveAllocs--; W->liveBytes -= h->size;
}
void *mc_realloc(void *p, size_t n) {
    if (!p) return mc_malloc(n);
    if (!W) return realloc(p, n);
    Hdr *h = (Hdr *)((u8 *)p - 16); void *q = mc_malloc(n);
    if (q) { memcpy(q, p, h->size < n ? h->size : n); mc_free(p); }
    return q;
}
bool arena_check(std::string &why) {
    u8 *a = arena(); u32 o = 0;
    while (o < W->arenaTop) {
        Hdr *h = (Hdr *)(a + o);
        if (h->can != CAN) { why = "heap header overwritten"; return false; }
        if (!tailOk(a + o, h->size)) { why = "heap block overrun"; return false; }
        if (h->state == 0) for (u32 i = 0; i < h->size; i++) if (a[o + 16 + i] != 0xDD) { why = "freed memory written"; return false; }
        o += foot(h->size);
    }
    return true;
}
void arena_reset() { W->arenaTop = 0; W->liveAllocs = W->liveBytes = W->totalAllocs = 0; memset(arena(), 0, ARENA); }
static void printOut(const char *s) { if (capturePrint && printed.size() < 1 << 16) printed += s; }
int mc_printf(const char *f, ...) {
    if (!capturePrint) return 0;
    char b[2048]; va_list a; va_start(a, f); int n = vsnprintf(b, sizeof b, f, a); va_end(a); printOut(b); return n;
}
int mc_puts(const char *s) { printOut(s); printOut("\n"); return 0; }
int mc_putchar(int c) { char b[2] = {(char)c, 0}; printOut(b); return c; }

// ---------------------------------------------------------------- devices
u8 *dev_page(Dev &d, u32 p) { return (u8 *)W + d.off + (u64)p * d.pageSize; }
static u8 eraseByte(int k) { return k == DK_FF ? 0xFF : k == DK_00 ? 0x00 : 0x01; }

// failTypes bit 6: reads of pages that the same call has already read successfully
static u64 readSeen[3][8192];
static u8 eraseByte(int k);
static bool tick(Dev *d, int type, u32 page = 0) {           // true: this op must fail
    if (++guardDevOps > 20000) stop(SK_HANG, "more than 20000 device operations in one call");
    if (type == OT_WRITE || type == OT_ERASE) {
        if (crashAt >= 0 && opCount == crashAt) {
            crashIn = type;
            // the power may also go while a block is being erased: its first crashPart pages are gone already
            if (type == OT_ERASE) for (u32 q = page; q < page + crashPart && q < page + d->blk && q < d->nPages; q++) { if (d->kind != DK_NOOP) memset(dev_page(*d, q), eraseByte(d->kind), d->pageSize); d->prog[q] = 0; }
            snprintf(stopMsg, sizeof stopMsg, "power cut"); siglongjmp(jb, SK_CRASHPOINT); }
        opCount++;
    }
    if (((failTypes >> type & 1) || (type == OT_READ && (failTypes & 64) && page < 8192 && readSeen[d->id][page] == nGuarded)) && (failDevs >> d->id & 1)) {
        int i = failCount++;
        if (failAt >= 0 && (i == failAt || (failSticky && i > failAt))) { failHappened = true; if (type != OT_READ) failWrote = true; return true; }
    }
    return false;
}
static void log(Dev *d, int type, u32 a, u32 b, int ok) { oplog.push_back(DevOp{d->id, (u8)type, (u8)ok, a, b}); }
static void breach(Dev *d, const char *what, u32 a, u32 b) {
    if (contractErr.empty()) {
        char t[160]; snprintf(t, sizeof t, "device %s: %s (page %u..%u, area %u pages, erase block %u)", d->id == 0 ? "data" : d->id == 1 ? "index" : "var", what, a, b, d->nPages, d->blk);
        contractErr = t;
    }
}
static Dev *D(void *f) {
    Dev *d = (Dev *)f;
    if (d != &W->dev[0] && d != &W->dev[1] && d != &W->dev[2]) stop(SK_HEAP, "device callback with a file handle that was not supplied for this database");
    return d;
}
static int8_t mcRead(void *buf, uint32_t page, uint32_t ps, void *f) {
    Dev *d = D(f);
    if (!d->isOpen) { breach(d, "read of a file that is not open", page, page); log(d, OT_READ, page, ps, 0); return 0; }
    if (ps != d->pageSize) breach(d, "read with the wrong page size", page, ps);
    if (tick(d, OT_READ, page)) {   // a failed read leaves garbage, possibly behind some of the page
        u32 n = failCut < 0 ? 0 : failCut < (int)d->pageSize ? failCut : d->pageSize; if (page >= d->nPages) n = 0;
        memcpy(buf, dev_page(*d, n ? page : 0), n); memset((u8 *)buf + n, 0xEE, ps - n); log(d, OT_READ, page, ps, 0); return 0;
    }
    bool flash = d->kind == DK_FF || d->kind == DK_00;
    u32 lim = flash ? d->nPages : d->length;
    if (page >= lim || page >= d->nPages) { log(d, OT_READ, page, ps, 0); return 0; }
    memcpy(buf, dev_page(*d, page), d->pageSize);
    d->reads++;
    if (page < 8192) readSeen[d->id][page] = nGuarded;
    log(d, OT_READ, page, ps, 1);
    return 1;
}
static int8_t mcWrite(void *buf, uint32_t page, uint32_t ps, void *f) {
    Dev *d = D(f);
    if (!d->isOpen) { breach(d, "write to a file that is not open", page, page); log(d, OT_WRITE, page, ps, 0); return 0; }
    if (ps != d->pageSize) breach(d, "write with the wrong page size", page, ps);
    if (page >= d->nPages) { breach(d, "write outside the page area", page, page); log(d, OT_WRITE, page, ps, 0); return 0; }
    if (tick(d, OT_WRITE)) { log(d, OT_WRITE, page, ps, 0); return 0; }
    if (d->prog[page]) breach(d, "page written twice without its block having been erased in between", page, page);
    memcpy(dev_page(*d, page), buf, d->pageSize);
    d->prog[page] = 1; d->seq[page] = d->writes; d->writes++; d->unsynced++;
    if (page >= d->length) d->length = page + 1;
    log(d, OT_WRITE, page, ps, 1);
    return 1;
}
static int8_t mcErase(id_t a, id_t b, uint32_t ps, void *f) {
    Dev *d = D(f);
    if (!d->isOpen) { breach(d, "erase of a file that is not open", a, b); log(d, OT_ERASE, a, b, 0); return 0; }
    if (ps != d->pageSize) breach(d, "erase with the wrong page size", a, ps);
    u32 area = d->area ? d->area : d->nPages;
    if (a >= area || b > area || a >= b) { breach(d, "erase outside the page area", a, b); log(d, OT_ERASE, a, b, 0); return 0; }
    if (a % d->blk || b - a != d->blk) breach(d, "erase that is not exactly one aligned erase block", a, b);
    if (tick(d, OT_ERASE, a)) { log(d, OT_ERASE, a, b, 0); return 0; }
    for (u32 p = a; p < b && p < d->nPages; p++) {
        if (d->kind != DK_NOOP) memset(dev_page(*d, p), eraseByte(d->kind), d->pageSize);
        d->prog[p] = 0;
    }
    if (d->kind == DK_01 && b > d->length) d->length = b;   // the mock erase extends the file
    d->erases++;
    log(d, OT_ERASE, a, b, 1);
    return 1;
}
static int8_t mcClose(void *f) { Dev *d = D(f); log(d, OT_CLOSE, 0, 0, 1); if (!d->isOpen) breach(d, "close of a file that is not open", 0, 0); d->isOpen = 0; d->unsynced = 0; return 1; }
static int8_t mcOpen(void *f, uint8_t mode) {
    Dev *d = D(f);
    if (tick(d, OT_OPEN)) { log(d, OT_OPEN, mode, 0, 0); return 0; }
    if (mode == EMBEDDB_FILE_MODE_R_PLUS_B) {
        if (!d->exists) { log(d, OT_OPEN, mode, 0, 0); return 0; }
    } else if (mode == EMBEDDB_FILE_MODE_W_PLUS_B) {
        d->exists = 1; d->length = 0; dev_wipe(*d); d->writes = d->erases = 0;
        memset((u8 *)W + d->off, d->kind == DK_NOOP ? 0 : eraseByte(d->kind), (u64)d->nPages * d->pageSize);
    } else { log(d, OT_OPEN, mode, 0, 0); return 0; }
    d->isOpen = 1; d->unsynced = 0;
    log(d, OT_OPEN, mode, 0, 1);
    return 1;
}
static int8_t mcFlush(void *f) {
    Dev *d = D(f);
    if (!d->isOpen) breach(d, "flush of a file that is not open", 0, 0);
    if (tick(d, OT_FLUSH)) { log(d, OT_FLUSH, 0, 0, 0); return 0; }
    d->unsynced = 0; log(d, OT_FLUSH, 0, 0, 1); return 1;
}
static embedDBFileInterface makeFI() { embedDBFileInterface f; f.read = mcRead; f.write = mcWrite; f.erase = mcErase; f.close = mcClose; f.open = mcOpen; f.flush = mcFlush; return f; }
embedDBFileInterface mcFI = makeFI();
void dev_powercut() { for (auto &d : W->dev) { d.isOpen = 0; d.unsynced = 0; } }

World *world_create(u64 addr, u64 modelBytes, const u32 pages[3], u32 ps, u32 blk, int kind) {
    u64 hdr = (sizeof(World) + 63) & ~63ull;
    u64 mb = (modelBytes + 63) & ~63ull;
    u64 bk = 0; for (int i = 0; i < 3; i++) bk += ((u64)pages[i] * 5 + 15) & ~15ull;
    bk = (bk + 63) & ~63ull;
    u64 tot = hdr + bk + mb + ARENA;
    for (int i = 0; i < 3; i++) tot += ((u64)pages[i] * ps + 63) & ~63ull;
    void *p = mmap((void *)addr, (tot + 0xFFFF) & ~0xFFFFull, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(3); }
    World *w = (World *)p; memset(w, 0, tot);
    w->size = tot; w->modelOff = hdr + bk; w->arenaOff = hdr + bk + mb;
    u64 o = hdr + bk + mb + ARENA, q = hdr;
    for (int i = 0; i < 3; i++) {
        Dev &d = w->dev[i]; d.kind = kind; d.id = i; d.nPages = pages[i]; d.pageSize = ps; d.blk = blk; d.off = o;
        d.maxPages = pages[i]; d.seq = (u32 *)((u8 *)w + q); d.prog = (u8 *)w + q + 4 * (u64)pages[i]; q += ((u64)pages[i] * 5 + 15) & ~15ull;
        o += ((u64)pages[i] * ps + 63) & ~63ull;
    }
    return w;
}

// ---------------------------------------------------------------- snapshots
extern "C" { extern u8 __start_repo_data[] __attribute__((weak)), __stop_repo_data[] __attribute__((weak)), __start_repo_bss[] __attribute__((weak)), __stop_repo_bss[] __attribute__((weak)); }
static u64 sd() { return __start_repo_data ? __stop_repo_data - __start_repo_data : 0; }
static u64 sb() { return __start_repo_bss ? __stop_repo_bss - __start_repo_bss : 0; }
u64 statics_size() { return sd() + sb(); }
static void save1(World *W, std::vector<u8> &o) {
    // the unused tail of the arena is all zero by construction only up to arenaTop; copy header+model+arena prefix+pages
    u64 a = W->arenaOff + ((W->arenaTop + 15) & ~15u), b = W->arenaOff + ARENA;
    u64 n = a + (W->size - b);
    o.resize(n);
    memcpy(o.data(), W, a); memcpy(o.data() + a, (u8 *)W + b, W->size - b);
}
static void load1(World *W, const std::vector<u8> &i) {
    World *sw = (World *)i.data();
    u64 a = sw->arenaOff + ((sw->arenaTop + 15) & ~15u), b = sw->arenaOff + ARENA;
    u64 sz = sw->size;
    memcpy(W, i.data(), a); memcpy((u8 *)W + b, i.data() + a, sz - b);
}
void snap_save(Snap &s) {
    if (W2[0]) { save1(W2[0], s.b); save1(W2[1], s.b2); } else save1(W, s.b);
    s.statics.resize(sd() + sb());
    if (sd()) memcpy(s.statics.data(), __start_repo_data, sd());
    if (sb()) memcpy(s.statics.data() + sd(), __start_repo_bss, sb());
}
void snap_load(const Snap &s) {
    if (W2[0]) { load1(W2[0], s.b); load1(W2[1], s.b2); } else load1(W, s.b);
    if (sd()) memcpy(__start_repo_data, s.statics.data(), sd());
    if (sb()) memcpy(__start_repo_bss, s.statics.data() + sd(), sb());
}
u64 hash_bytes(const void *p, size_t n, u64 h) {
    const u8 *b = (const u8 *)p;
    h ^= n * 0x9E3779B97F4A7C15ull;
    while (n >= 8) { u64 v; memcpy(&v, b, 8); h = (h ^ v) * 0xff51afd7ed558ccdull; h ^= h >> 32; b += 8; n -= 8; }
    u64 v = 0; memcpy(&v, b, n); h = (h ^ v) * 0xc4ceb9fe1a85ec53ull; h ^= h >> 29;
    return h;
}
u64 statics_hash(u64 h) {
    if (sd()) h = hash_bytes(__start_repo_data, sd(), h);
    if (sb()) h = hash_bytes(__start_repo_bss, sb(), h);
    return h;
}
