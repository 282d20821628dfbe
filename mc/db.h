// Configuration, reference model and the wrappers that run one API operation on the real code and
// compare its outcome with the model.
#pragma once
#include "rt.h"
#include <map>
#include <functional>

struct Cfg {
    int k = 4, d = 4, ps = 64, N = 8, B = 2, ip = 4, vp = 8;
    int idx = 0, mm = 0, bmap = 0, var = 0, rlc = 0, bin = 0, nosc = 0;
    int spl = 8, err = 1, bm = 1, kind = DK_NOOP;
    u64 key0 = 10; u64 gap = 2;
    int ownbm = 1;              // 1: harness bitmap functions; 0: the repository's
    int owncmp = 1;             // 1: harness comparators (unsigned keys); 0: the repository's
    int vbase = 0, vstep = 10, nb = 6; // data values vbase + bucket*vstep + j
    std::vector<int> lens = {-1};   // default put: -1 putVar(NULL), -2 embedDBPut, >=0 putVar(len)
    int bufs() const { return var ? (idx ? 6 : 4) : (idx ? 4 : 2); }
    int flags() const {
        return (idx ? EMBEDDB_USE_INDEX : 0) | (mm ? EMBEDDB_USE_MAX_MIN : 0) | (bmap ? EMBEDDB_USE_BMAP : 0) | (var ? EMBEDDB_USE_VDATA : 0) |
               (rlc ? EMBEDDB_RECORD_LEVEL_CONSISTENCY : 0) | (bin ? EMBEDDB_USE_BINARY_SEARCH : 0) | (nosc ? EMBEDDB_DISABLE_SPLINE_CLEAN : 0);
    }
    int header() const { return 6 + (idx || bmap ? bmWidth() : 0) + (mm ? 2 * k + 2 * d : 0); }
    int bmWidth() const { return bm; }
    int rec() const { return k + d + (var ? 4 : 0); }
    int maxRec() const { return (ps - header()) / rec(); }
    int cap() const { return N - (rlc ? 2 * B : 0); }
};

struct Rec { u64 key; int32_t dv; u32 seed; int32_t vlen; u32 vLo, vHi; };
#ifndef MC_MAXR
#define MC_MAXR 260
#define MC_PRING 256
#endif
const int MAXR = MC_MAXR;
const int PRING = MC_PRING;
struct Cursor { embedDBIterator it; u8 active, kind, isVar, ended; u8 haveLast; u64 last; u64 kmin, kmax; int32_t dmin, dmax; };
struct StreamCur { embedDBVarDataStream *s; u8 active; u32 rec; u32 pos; };
struct Model {
    u8 alt;                     // choices of doAlt in effect
    u8 open, dead, pendShift;              // dead: the last operation failed under an injected fault; pendShift: its page was written but the consistency blocks were not moved yet
    u32 n;                      // records accepted so far (indices 0..n-1)
    u32 nextPage, minPage;      // logical data pages
    i64 avail;
    u32 bufFirst;               // first record held only in the write buffer
    u32 varFloor;               // records whose variable data may start below this write number may be reported lost
    u32 pageFirst[PRING];
    Cursor cur[2];
    StreamCur str;
    u32 statsW, statsR, statsIW, statsIR;
    u32 puts;
    u32 orphN; u64 orphKey[16]; u32 orphLo[16];   // records lost in a crash whose variable data had reached storage: their pages still carry the key
    Rec recs[MAXR];
};
extern Cfg C;
inline Model &M() { return *(Model *)((u8 *)W + W->modelOff); }

struct Violation { std::string what; };
[[noreturn]] void vio(const char *fmt, ...);

// deterministic content
void keyBytes(u64 k, u8 *out);
u64 keyVal(const u8 *b);
void dataBytes(const Rec &r, u8 *out);
int32_t dvOf(const u8 *b);
u8 varByte(u32 seed, u32 i);





