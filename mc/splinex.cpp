// All bounded histories of the learned index: sequences of first keys (as distances), with eviction and erasure.
#include "unit.h"
static int K; static u64 KM;
template <int N> static int8_t cmpU(void *a, void *b) { u64 x = 0, y = 0; memcpy(&x, a, N); memcpy(&y, b, N); return x < y ? -1 : x > y ? 1 : 0; }
static int8_t (*cmps[9])(void *, void *) = {cmpU<1>, cmpU<1>, cmpU<2>, cmpU<3>, cmpU<4>, cmpU<5>, cmpU<6>, cmpU<7>, cmpU<8>};
static spline *S; static u32 P0; static int era;
static u64 lastKey; static std::vector<u64> keys;      // first key of page P0+i
static void find(u64 key, u32 want) {
    Exact k(K, &key); id_t loc = 0xEEEEEEEE, lo = 0xEEEEEEEE, hi = 0xEEEEEEEE; nObs++;
    api("splineFind", [&] { splineFind(S, k, cmps[K], &loc, &lo, &hi); });
    if (lo > want || hi < want) vio("splineFind(%llu): pages %u..%u, but the key belongs to page %u (of %u..%u, first key %llu)", (unsigned long long)key, lo, hi, want, P0, P0 + (u32)keys.size() - 1, (unsigned long long)keys[want - P0]);
    if (loc < lo || loc > hi) vio("splineFind(%llu): estimate %u outside its own range %u..%u", (unsigned long long)key, loc, lo, hi);
}
static void leak();
static void check() {
    nStates++; sample();
    if (S->count > S->size) vio("the index holds %zu points but only %zu are allocated", S->count, S->size);
    memCheck("splineAdd");
    for (size_t i = 0; i < keys.size(); i++) {
        u64 f = keys[i], l = i + 1 < keys.size() ? keys[i + 1] - 1 : KM; u32 p = P0 + i;
        find(f, p);
        if (l > f) { find(l, p); find(f + 1 < l ? f + 1 : l, p); if (l - f > 2) find(f + (l - f) / 2, p); }
    }
    leak();
    if (keys.size() && keys[0] > 0) { u64 z = keys[0] - 1; Exact k(K, &z); id_t a, b, c; api("splineFind", [&] { splineFind(S, k, cmps[K], &a, &b, &c); }); }
}
static void leak() {
    if (!argI("leak", 0)) return;
    Snap s; snap_save(s); api("splineClose", [&] { splineClose(S); }); memCheck("splineClose");
    if (W->liveAllocs != 1) vio("%d heap blocks of the index are still allocated after splineClose", (int)W->liveAllocs - 1);
    snap_load(s);
}
static void add(u64 key) {
    Exact k(K, &key); keys.push_back(key); lastKey = key; u32 p = P0 + keys.size() - 1; nTrans++;
    api("splineAdd", [&] { splineAdd(S, k, p); });
}
static void erase(u32 n) {
    nTrans++; size_t before = S->count; int rc = 99;
    api("splineErase", [&] { rc = splineErase(S, n); });
    if (rc == 0 && S->count != before - n) vio("splineErase(%u) left %zu of %zu points", n, S->count, before);
    if (rc == 0 && n == before) { P0 += keys.size(); keys.clear(); }
    if (rc != 0 && S->count != before) vio("splineErase(%u) failed but changed the number of points", n);
}
static std::vector<u64> gaps; static u64 defGap;
static void start(u32 size, u64 err, u64 key0) {
    arena_reset(); P0 = argI("p0", 0); keys.clear(); path.clear(); S = (spline *)mc_malloc(sizeof(spline));
    api("splineInit", [&] { splineInit(S, size, err, K); });
    add(key0); check();
}
static bool fits(u64 g) { return KM - lastKey >= g; }
static void explore(int depth, int devs) {
    for (; depth > 0; depth--) {
        if (devs > 0) {
            Snap s; snap_save(s); size_t n = keys.size(); u32 p0 = P0; u64 l = lastKey;
            for (u64 g : gaps) if (fits(g)) {
                path.push_back("g" + std::to_string(g)); add(lastKey + g); check(); explore(depth - 1, devs - 1); path.pop_back(); keys.resize(n); lastKey = l; snap_load(s);
            }
            if (era) for (u32 e = 1; e <= S->count; e++) if (e + 2 <= S->count || (era > 1 && e == S->count)) {
                auto sv = keys; path.push_back("e" + std::to_string(e)); erase(e); check(); explore(depth - 1, devs - 1); path.pop_back(); keys = sv; P0 = p0; snap_load(s);
            }
        }
        if (!defGap || !fits(defGap)) return;
        path.push_back("g" + std::to_string(defGap)); add(lastKey + defGap); check();
    }
}
int main(int argc, char **argv) {
    unitInit(argc, argv);
    K = argI("k", 4); KM = K == 8 ? ~0ull : (1ull << (8 * K)) - 1; P0 = argI("p0", 0); era = argI("erase", 0);
    for (auto &g : split(argS("gaps", "1,2,50"), ',')) gaps.push_back(strtoull(g.c_str(), 0, 0));
    u32 pages[3] = {1, 1, 1}; W = world_create(0x100000000000ull, 64, pages, 64, 1, 0);
    std::vector<u64> errs, sizes; for (auto &x : split(argS("err", "0,1,2"), ',')) errs.push_back(strtoull(x.c_str(), 0, 0)); for (auto &x : split(argS("size", "4,5"), ',')) sizes.push_back(strtoull(x.c_str(), 0, 0));
    u64 key0 = argI("key0", 10); int n = argI("n", 8), D = argI("D", n); defGap = argI("def", 0);
    std::string viol; u32 sz = 0; u64 er = 0;
    try {
        if (replaying) {
            auto t = split(A["replay"], ' '); start(strtoul(t[0].c_str() + 1, 0, 10), strtoull(t[1].c_str() + 1, 0, 10), key0);
            for (size_t i = 2; i < t.size(); i++) { u64 v = strtoull(t[i].c_str() + 1, 0, 10); if (t[i][0] == 'g') add(lastKey + v); else erase(v); if (argI("verbose", 1)) printf("%s: %zu points, page %u first key %llu\n", t[i].c_str(), S->count, P0 + (u32)keys.size() - 1, (unsigned long long)lastKey); check(); }
        } else for (u64 s : sizes) for (u64 e : errs) { sz = s; er = e; start(s, e, key0); explore(n, D); }
    } catch (Violation &v) { viol = v.what; if (!replaying) { path.insert(path.begin(), {"s" + std::to_string(sz), "r" + std::to_string(er)}); } }
    return finish(viol);
}
