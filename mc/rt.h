// Runtime shared by every explorer: controlled heap, in-memory page devices, guarded calls,
// snapshots of the whole world.  Nothing here depends on the text of the code under test.
#pragma once
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <string>
#include <vector>

#ifdef MC_DIST
#include "embedDB.h"
#else
#include "embedDB/embedDB.h"
#include "query-interface/advancedQueries.h"
#include "query-interface/schema.h"
#include "spline/spline.h"
#include "embedDBUtility.h"
#endif
#undef max
#undef min

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64;

extern bool (*oomHook)();          // asked for every allocation of the code under test: should it fail?
// ---------------------------------------------------------------- devices
enum DevKind { DK_NOOP = 0, DK_01 = 1, DK_FF = 2, DK_00 = 3 };
enum OpType { OT_READ = 0, OT_WRITE = 1, OT_ERASE = 2, OT_OPEN = 3, OT_CLOSE = 4, OT_FLUSH = 5 };

struct Dev {
    u8 exists, isOpen, kind, id;
    u32 nPages;                   // configured area in pages (those of it that are stored) 
    u32 area;                     // the whole area, when only its first nPages pages are stored (0: all are)
    u32 pageSize;
    u32 blk;                      // erase block in pages
    u32 length;                   // pages present in the file (reads at or past it fail); flash: always nPages
    u32 writes, erases;           // since the file was created
    u32 reads;
    u32 unsynced;                 // writes since last flush()
    u32 maxPages;                 // size of the two arrays
    u8 *prog;                     // page programmed since its last erase
    u32 *seq;                     // which write of the file (0,1,..) that page holds
    u64 off;                      // offset of the page storage in the world
};

struct DevOp { u8 dev, type; u8 ok; u32 a, b; };

// ---------------------------------------------------------------- world
extern u32 ARENA;
struct World {
    u64 size;                     // total bytes incl. trailing page storage
    Dev dev[3];
    u32 arenaTop;                 // high-water mark of the arena
    u32 liveAllocs, liveBytes;
    u32 totalAllocs;
    embedDBState *st;             // null when no database is open
    u8 *userBuf;
    // model and cursors live in a typed blob that the explorer defines
    u64 modelOff;
    u64 arenaOff;
    u8 data[];
};

extern World *W;                  // current world (calls from the code under test act on it)
extern World *W2[2];              // both worlds when two databases are open side by side (else null)

// violations and aborts
struct Stop { int kind; };
enum StopKind { SK_NONE = 0, SK_CRASHPOINT = 1, SK_SIGNAL = 2, SK_HANG = 3, SK_HEAP = 4, SK_ABORT = 5 };

extern bool capturePrint; extern std::string printed;   // what the code under test prints
extern u8 heapFill;               // pattern for fresh heap memory
void stack_fill();                // the same pattern where the next call keeps its local variables
extern int crashPart, crashIn;      // pages of the block already erased if the power fails in an erase; kind of access it failed in
extern int crashAt;               // device write/erase index within the guarded call at which power fails (-1: never)
extern int failAt;                // device op index (all kinds in failMask) that reports failure (-1: never)
extern int failTypes;             // bit mask of OpType eligible for failAt
extern int failDevs;              // bit mask of device ids eligible for failAt
extern int failSticky;            // later ops fail too
extern int opCount;               // number of eligible (write/erase) ops in this guarded call
extern int failCount;             // number of fail-eligible ops seen in this guarded call
extern bool failHappened;        // in this guarded call
extern bool failWrote;           // in this guarded call: a write, erase, open or flush reported failure
extern int failCut;              // a failing read first delivers this many true bytes of the page
extern std::vector<DevOp> oplog;  // ops of the current guarded call
extern std::string contractErr;   // first device-contract breach in this guarded call
extern u64 nGuarded;

// Runs f() with signals and hangs caught; returns the stop kind.
int guarded_run(void (*tramp)(void *), void *ctx);
template <class F> int guarded(F f) {
    struct L { static void t(void *p) { (*(F *)p)(); } };
    return guarded_run(&L::t, (void *)&f);
}
extern char stopMsg[256];

extern "C" {
void *mc_malloc(size_t n);
void *mc_calloc(size_t n, size_t m);
void *mc_realloc(void *p, size_t n);
void mc_free(void *p);
int mc_printf(const char *f, ...);
int mc_puts(const char *s);
int mc_putchar(int c);
}
bool arena_check(std::string &why);  // canaries of all blocks
void arena_reset();

extern embedDBFileInterface mcFI;

void rt_init();
inline void dev_wipe(Dev &d) { memset(d.prog, 0, d.maxPages); memset(d.seq, 0, 4 * d.maxPages); }
World *world_create(u64 fixedAddr, u64 modelBytes, const u32 pages[3], u32 pageSize, u32 blk, int kind);

// snapshots
struct Snap { std::vector<u8> b, b2; std::vector<u8> statics; };
void snap_save(Snap &s);
void snap_load(const Snap &s);
u64 statics_size();
u64 hash_bytes(const void *p, size_t n, u64 seed);
u64 statics_hash(u64 seed);
void dev_powercut();              // close files, lose nothing that was written
u8 *dev_page(Dev &d, u32 p);
