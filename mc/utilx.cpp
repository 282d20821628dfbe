// The supplied bitmap helpers and comparators: all bitmaps x all added values (states and transitions), all ranges x all values.
#include "unit.h"
#ifndef MC_DIST
extern "C" {
#include "embedDBUtility.h"
}
#else
extern "C" {
void updateBitmapInt8(void *, void *); void buildBitmapInt8FromRange(void *, void *, void *); int8_t inBitmapInt8(void *, void *);
void updateBitmapInt16(void *, void *); void buildBitmapInt16FromRange(void *, void *, void *); int8_t inBitmapInt16(void *, void *);
void updateBitmapInt64(void *, void *); void buildBitmapInt64FromRange(void *, void *, void *); int8_t inBitmapInt64(void *, void *);
int8_t int32Comparator(void *, void *); int8_t int64Comparator(void *, void *);
}
#endif
typedef void (*Upd)(void *, void *); typedef int8_t (*In)(void *, void *); typedef void (*Bld)(void *, void *, void *);
static Upd upd; static In in; static Bld bld; static int NB, DB;      // bitmap bytes, data bytes read
static std::set<i64> dom;
// buffers with guards on both sides
struct Buf { u8 b[32]; u8 *p() { return b + 12; } void set(const void *v, int n) { memset(b, 0x5A, sizeof b); memcpy(p(), v, n); } bool ok(int n) { for (int i = 0; i < 12; i++) if (b[i] != 0x5A) return false; for (int i = 12 + n; i < 32; i++) if (b[i] != 0x5A) return false; return true; } u64 get(int n) { u64 v = 0; memcpy(&v, p(), n); return v; } };
static Buf D1, D2, Bm;
static u64 mask() { return NB == 8 ? ~0ull : (1ull << (8 * NB)) - 1; }
static u64 doUpd(i64 v, u64 bm) {
    D1.set(&v, DB); Bm.set(&bm, NB); nTrans++; upd(D1.p(), Bm.p());
    if (!Bm.ok(NB)) vio("update(%lld) wrote outside the bitmap", (long long)v);
    if (!D1.ok(DB) || D1.get(DB) != (DB == 4 ? (u32)v : (u16)v)) vio("update(%lld) changed its data argument", (long long)v);
    return Bm.get(NB);
}
static bool doIn(i64 v, u64 bm) {
    D1.set(&v, DB); Bm.set(&bm, NB); nObs++; int8_t r = in(D1.p(), Bm.p());
    if (!Bm.ok(NB) || Bm.get(NB) != bm) vio("inBitmap(%lld) changed the bitmap", (long long)v);
    return r != 0;
}
static u64 doBld(const i64 *lo, const i64 *hi, u64 junk) {
    if (lo) D1.set(lo, DB); if (hi) D2.set(hi, DB); Bm.set(&junk, NB); nObs++;
    bld(lo ? D1.p() : nullptr, hi ? D2.p() : nullptr, Bm.p());
    if (!Bm.ok(NB)) vio("buildFromRange wrote outside the bitmap");
    return Bm.get(NB);
}
static std::string S64(i64 v) { return std::to_string(v); }
static void states() {
    // every bitmap (8 and 16 bits: all; 64 bits: up to three buckets, and all but up to two) x every value
    std::vector<u64> bms;
    if (NB <= 2) for (u64 b = 0; b <= mask(); b++) bms.push_back(b);
    else { bms = {0, ~0ull}; for (int i = 0; i < 64; i++) for (int j = i; j < 64; j++) for (int k = j; k < 64; k += NB == 8 ? 7 : 1) { bms.push_back(1ull << i | 1ull << j | 1ull << k); if (k == j) bms.push_back(~(1ull << i | 1ull << j)); } }
    std::vector<i64> vs(dom.begin(), dom.end());
    if (NB >= 2) { std::vector<i64> t; u64 last = 0; for (size_t i = 0; i < vs.size(); i++) { u64 b = doUpd(vs[i], 0); bool edge = i == 0 || i + 1 == vs.size() || b != last || (i + 1 < vs.size() && doUpd(vs[i + 1], 0) != b) || vs[i] % 97 == 0; if (edge) t.push_back(vs[i]); last = b; } vs = t; }
    for (u64 b : bms) { nStates++; for (i64 v : vs) {
        path = {"b" + std::to_string(b), "v" + S64(v)};
        u64 n = doUpd(v, b);
        if ((n & b) != b) vio("adding %lld to bitmap %llx gives %llx: a bucket was lost", (long long)v, (unsigned long long)b, (unsigned long long)n);
        if (!doIn(v, n)) vio("%lld was added to bitmap %llx but is reported absent from the result %llx", (long long)v, (unsigned long long)b, (unsigned long long)n);
        if (nStates % 997 == 3 && samples.size() < 3) samples.push_back(pathStr());
    } }
}
static void ranges() {
    std::vector<i64> vs(dom.begin(), dom.end()); std::vector<u64> bm(vs.size());
    for (size_t i = 0; i < vs.size(); i++) { nStates++; path = {"b0", "v" + S64(vs[i])}; bm[i] = doUpd(vs[i], 0); if (!bm[i]) vio("adding %lld to an empty bitmap sets no bucket", (long long)vs[i]); if (!doIn(vs[i], bm[i])) vio("%lld is reported absent from its own bitmap", (long long)vs[i]); }
    i64 n = vs.size();
    for (i64 l = -1; l < n; l++) for (i64 h = l < 0 ? -1 : l; h < n; h++) {
        if (l >= 0 && h == l && 0) continue;
        for (int open = 0; open < (l >= 0 && h == n - 1 ? 2 : 1); open++) {
            bool useLo = l >= 0, useHi = h >= 0 && !open;
            path = {useLo ? "l" + S64(vs[l]) : "l*", useHi ? "h" + S64(vs[h]) : "h*"};
            u64 r = doBld(useLo ? &vs[l] : 0, useHi ? &vs[h] : 0, 0), r2 = doBld(useLo ? &vs[l] : 0, useHi ? &vs[h] : 0, mask());
            nStates++;
            if (r != r2) vio("the range's bitmap depends on what was in the buffer before (%llx, %llx)", (unsigned long long)r, (unsigned long long)r2);
            size_t a = useLo ? l : 0, b = useHi ? h : n - 1; if (h < 0) b = n - 1;
            for (size_t i = a; i <= b; i++) { nObs++; if (!(bm[i] & r)) { path.push_back("v" + S64(vs[i])); vio("%lld lies in the range but shares no bucket with the range's bitmap %llx (its own: %llx)", (long long)vs[i], (unsigned long long)r, (unsigned long long)bm[i]); } }
        }
    }
}
static void extremes(int bits) {
    for (int k = 0; k < bits; k++) for (int d = -2; d <= 2; d++) { u64 p = (1ull << k) + (i64)d; for (u64 x : {p, ~p, (u64)(0 - p)}) { i64 v = bits == 16 ? (i64)(int16_t)x : bits == 32 ? (i64)(int32_t)x : (i64)x; dom.insert(v); } }
}
static void comparator(int bytes) {
    dom.clear(); extremes(bytes * 8);
    for (i64 v = -300; v <= 300; v++) dom.insert(v);
    for (i64 v : {0x12345678ll, -0x12345678ll, 0x7FFF0000FFFFll, 0x00FF00FF00FF00FFll}) dom.insert(bytes == 4 ? (i64)(int32_t)v : v);
    auto cmp = bytes == 4 ? int32Comparator : int64Comparator;
    for (i64 a : dom) for (i64 b : dom) {
        nTrans++; nStates++; path = {"a" + S64(a), "b" + S64(b)};
        u8 x[32], y[32]; memset(x, 0x77, 32); memset(y, 0x99, 32);
        for (int off : {8, 9}) {
            memcpy(x + off, &a, bytes); memcpy(y + off, &b, bytes); int r = cmp(x + off, y + off); nObs++;
            int w = a < b ? -1 : a > b ? 1 : 0;
            if ((r > 0) - (r < 0) != w) vio("int%dComparator(%lld, %lld) = %d", bytes * 8, (long long)a, (long long)b, r);
        }
        if (nTrans % 99991 == 1 && samples.size() < 3) samples.push_back(pathStr());
    }
}
int main(int argc, char **argv) {
    unitInit(argc, argv); std::string viol, what = argS("what", "int8");
    try {
        int r = guarded([&] {
            if (what == "cmp32") return comparator(4);
            if (what == "cmp64") return comparator(8);
            i64 lo, hi;
            if (what == "int8") { upd = updateBitmapInt8; in = inBitmapInt8; bld = buildBitmapInt8FromRange; NB = 1; DB = 2; lo = -30; hi = 140; }
            else if (what == "int16") { upd = updateBitmapInt16; in = inBitmapInt16; bld = buildBitmapInt16FromRange; NB = 2; DB = 4; lo = 300; hi = 800; }
            else { upd = updateBitmapInt64; in = inBitmapInt64; bld = buildBitmapInt64FromRange; NB = 8; DB = 4; lo = 300; hi = 970; }
            lo -= argI("wide", 0); hi += argI("wide", 0);
            for (i64 v = lo; v <= hi; v++) dom.insert(v);
            extremes(DB * 8); ranges();
            if (argI("full", 0) && DB == 2) for (i64 v = -32768; v < 32768; v++) dom.insert(v);
            states();
        });
        if (r) vio("%s", stopMsg);
    } catch (Violation &v) { viol = v.what; }
    nApi = nTrans + nObs;
    return finish(viol);
}
