// Query operators over real tables: all small tables x all pipelines, against the relational definition.
#include "unit.h"
typedef __int128 i128;
struct Col { int size; bool sgn; };
struct Rel { std::vector<Col> cols; std::vector<std::vector<u8>> rows; int width() const { int w = 0; for (auto &c : cols) w += c.size; return w; } int off(int c) const { int w = 0; for (int i = 0; i < c; i++) w += cols[i].size; return w; } };
static i128 num(const u8 *p, Col c) { i128 v = 0; for (int i = c.size - 1; i >= 0; i--) v = v << 8 | p[i]; if (c.sgn && (p[c.size - 1] & 0x80)) v -= (i128)1 << (8 * c.size); return v; }
static void put(u8 *p, Col c, i128 v) { for (int i = 0; i < c.size; i++) { p[i] = (u8)v; v >>= 8; } }
static std::string str(i128 v) { if (v < 0) return "-" + str(-v); std::string s; do { s.insert(s.begin(), '0' + (int)(v % 10)); v /= 10; } while (v); return s; }
static std::string rowStr(const u8 *p, const std::vector<Col> &cs) { std::string s = "("; for (size_t i = 0; i < cs.size(); i++) { if (i) s += ", "; s += str(num(p, cs[i])); p += cs[i].size; } return s + ")"; }
// ------------------------------------------------------------------ tables
template <int N> static int8_t cmpU(void *a, void *b) { u64 x = 0, y = 0; memcpy(&x, a, N); memcpy(&y, b, N); return x < y ? -1 : x > y ? 1 : 0; }
static int8_t (*cmps[9])(void *, void *) = {cmpU<1>, cmpU<1>, cmpU<2>, cmpU<3>, cmpU<4>, cmpU<5>, cmpU<6>, cmpU<7>, cmpU<8>};
static int8_t cmpFirst(void *a, void *b) { return (int8_t)((*(int8_t *)a > *(int8_t *)b) - (*(int8_t *)a < *(int8_t *)b)); }
// own bitmaps over the first byte of the data (what cmpFirst compares)
static void bmUpd1(void *d, void *bm) { *(u8 *)bm |= 1 << (*(u8 *)d >> 5); }
static int8_t bmIn1(void *d, void *bm) { return *(u8 *)bm >> (*(u8 *)d >> 5) & 1; }
static void bmRange1(void *lo, void *hi, void *bm) { int a = lo ? *(int8_t *)lo : -128, b = hi ? *(int8_t *)hi : 127; for (int v = a; v <= b; v++) { u8 x = (u8)v; bmUpd1(&x, bm); } }
struct Tab { embedDBState *st; Rel r; embedDBSchema *schema; };
static int PS = 256;
static void freshWorld() { for (auto &d : W->dev) { d.exists = d.isOpen = 0; d.length = 0; d.writes = d.erases = d.reads = 0; dev_wipe(d); } arena_reset(); }
static Tab openTab(int dev, const Rel &r, int flushAt) {
    int k = r.cols[0].size, d = r.width() - k;
    embedDBState *st = (embedDBState *)mc_malloc(sizeof *st); memset(st, 0, sizeof *st);
    st->keySize = k; st->dataSize = d; st->pageSize = PS; st->bufferSizeInBlocks = 2; st->buffer = mc_malloc(2 * PS);
    st->numDataPages = 8; st->eraseSizeInPages = 2; st->fileInterface = &mcFI; st->dataFile = &W->dev[dev]; st->numSplinePoints = 8;
    static int cfg = argI("cfg", 0); static int8_t lens[3] = {0, 30, 5};   // 1 variable data, 2 index, 4 bitmaps, 8 minima and maxima, 16 record-level consistency, 32 reopened
    if (cfg & 1) { st->parameters |= EMBEDDB_USE_VDATA; st->varFile = &W->dev[2]; st->numVarPages = 8; }
    if (cfg & 2) { st->parameters |= EMBEDDB_USE_INDEX; st->indexFile = &W->dev[1]; st->numIndexPages = 4; }
    if (cfg & 6) { st->parameters |= EMBEDDB_USE_BMAP; st->bitmapSize = 1; st->updateBitmap = bmUpd1; st->inBitmap = bmIn1; st->buildBitmapFromRange = bmRange1; }
    if (cfg & 8) st->parameters |= EMBEDDB_USE_MAX_MIN;
    if (cfg & 16) st->parameters |= EMBEDDB_RECORD_LEVEL_CONSISTENCY;
    if (cfg & 3) { mc_free(st->buffer); st->bufferSizeInBlocks = 2 + (cfg & 1 ? 2 : 0) + (cfg & 2 ? 2 : 0); st->buffer = mc_malloc(st->bufferSizeInBlocks * PS); }
    st->parameters |= EMBEDDB_RESET_DATA; st->compareKey = cmps[k]; st->compareData = cmpFirst;
    int rc = 99; api("embedDBInit", [&] { rc = embedDBInit(st, 1); }); if (rc) vio("embedDBInit returned %d", rc);
    for (size_t i = 0; i < r.rows.size(); i++) {
        Exact kb(k, r.rows[i].data()), db(d, r.rows[i].data() + k);
        if (cfg & 1) { int l = lens[i % 3]; Exact vb(l ? l : 1, (const u8 *)"abcdefghijklmnopqrstuvwxyz01234567"); api("embedDBPutVar", [&] { rc = embedDBPutVar(st, kb, db, l ? vb.p : nullptr, l); }); if (rc) vio("embedDBPutVar returned %d", rc); }
        else { api("embedDBPut", [&] { rc = embedDBPut(st, kb, db); }); if (rc) vio("embedDBPut returned %d", rc); }
        if ((int)i + 1 == flushAt) { api("embedDBFlush", [&] { rc = embedDBFlush(st); }); if (rc) vio("embedDBFlush returned %d", rc); }
    }
    if (cfg & 32) {
        api("embedDBFlush", [&] { rc = embedDBFlush(st); }); api("embedDBClose", [&] { embedDBClose(st); });
        st->parameters &= ~EMBEDDB_RESET_DATA; api("embedDBInit", [&] { rc = embedDBInit(st, 1); }); if (rc && !r.rows.empty()) vio("reopening returned %d", rc);
    }
    Tab t; t.st = st; t.r = r;
    std::vector<int8_t> sz, sg; for (auto &c : r.cols) { sz.push_back(c.size); sg.push_back(c.sgn ? embedDB_COLUMN_SIGNED : embedDB_COLUMN_UNSIGNED); }
    api("embedDBCreateSchema", [&] { t.schema = embedDBCreateSchema(sz.size(), sz.data(), sg.data()); }); if (!t.schema) vio("embedDBCreateSchema failed");
    for (size_t i = 0; i < r.cols.size(); i++) if (t.schema->columnSizes[i] != (r.cols[i].sgn ? -1 : 1) * r.cols[i].size) vio("embedDBCreateSchema: column %zu is %d", i, t.schema->columnSizes[i]);
    return t;
}
static void closeTab(Tab &t) {
    api("embedDBFreeSchema", [&] { embedDBFreeSchema(&t.schema); }); api("embedDBClose", [&] { embedDBClose(t.st); });
    mc_free(t.st->buffer); mc_free(t.st); memCheck("embedDBClose");
}
// ------------------------------------------------------------------ one query
static const char *opN[6] = {">", "<", ">=", "<=", "=", "!="};
static bool holds(i128 a, int op, i128 b) { switch (op) { case 0: return a > b; case 1: return a < b; case 2: return a >= b; case 3: return a <= b; case 4: return a == b; default: return a != b; } }
struct Node { Rel r; embedDBOperator *op; };
// memory running out: the oomAt-th allocation fails (or it and all later ones)
static bool oomOn; static int oomAt, oomCnt, oomSticky, oomHits; struct NoMem {};
static bool oomAsk() { if (!oomOn) return false; int i = oomCnt++; if (i == oomAt || (oomSticky && i > oomAt)) { oomHits++; return true; } return false; }
[[noreturn]] static void noCreate(const char *what, int before) { if (oomHits > before) throw NoMem(); vio("%s failed", what); }
struct Query {
    std::vector<void *> mem, ops; std::vector<embedDBIterator *> its; std::vector<embedDBState *> itSt; std::vector<std::vector<embedDBAggregateFunc> *> fns; std::vector<Exact *> vals; bool join = false; std::set<void *> joined;
    u32 base = W->liveAllocs;
};
static int dLo = -999, dHi = -999;     // bounds of the scans on the first byte of the data
static Node scan(Query &q, Tab &t, const u8 *lo = 0, const u8 *hi = 0) {
    embedDBIterator *it = new embedDBIterator; memset(it, 0x5A, sizeof *it); int k = t.r.cols[0].size;
    it->minKey = it->maxKey = it->minData = it->maxData = nullptr;
    if (lo) { Exact *e = new Exact(k, lo); q.vals.push_back(e); it->minKey = e->p; } if (hi) { Exact *e = new Exact(k, hi); q.vals.push_back(e); it->maxKey = e->p; }
    int dw = t.r.width() - k; std::vector<u8> db(dw, 0); if (dLo > -999) { db[0] = (u8)dLo; Exact *e = new Exact(dw, db.data()); q.vals.push_back(e); it->minData = e->p; } if (dHi > -999) { db[0] = (u8)dHi; Exact *e = new Exact(dw, db.data()); q.vals.push_back(e); it->maxData = e->p; }
    api("embedDBInitIterator", [&] { embedDBInitIterator(t.st, it); }); q.its.push_back(it); q.itSt.push_back(t.st);
    Node n; n.r.cols = t.r.cols; for (auto &r : t.r.rows) { i128 v = num(r.data(), t.r.cols[0]); if ((!lo || v >= num(lo, t.r.cols[0])) && (!hi || v <= num(hi, t.r.cols[0])) && (dLo == -999 || (int8_t)r[k] >= dLo) && (dHi == -999 || (int8_t)r[k] <= dHi)) n.r.rows.push_back(r); }
    int h0 = oomHits; api("createTableScanOperator", [&] { n.op = createTableScanOperator(t.st, it, t.schema); }); if (!n.op) noCreate("createTableScanOperator", h0); q.ops.push_back(n.op);
    return n;
}
static Node sel(Query &q, const Node &in, int col, int op, i128 v) {
    Node n; n.r.cols = in.r.cols; Col c = in.r.cols[col]; int off = in.r.off(col);
    u8 vb[128] = {0}; put(vb, c, v); Exact *e = new Exact(c.size, vb); q.vals.push_back(e);
    for (auto &r : in.r.rows) if (holds(num(r.data() + off, c), op, v)) n.r.rows.push_back(r);
    int h0 = oomHits; api("createSelectionOperator", [&] { n.op = createSelectionOperator(in.op, col, op, e->p); }); if (!n.op) noCreate("createSelectionOperator", h0); q.ops.push_back(n.op);
    return n;
}
static Node proj(Query &q, const Node &in, u32 mask) {
    Node n; u8 cols[32]; int nc = 0; for (size_t i = 0; i < in.r.cols.size(); i++) if (mask >> i & 1) { cols[nc++] = i; n.r.cols.push_back(in.r.cols[i]); }
    for (auto &r : in.r.rows) { std::vector<u8> o; for (int i = 0; i < nc; i++) { int f = in.r.off(cols[i]); o.insert(o.end(), r.begin() + f, r.begin() + f + in.r.cols[cols[i]].size); } n.r.rows.push_back(o); }
    Exact cl(nc, cols);
    int h0 = oomHits; api("createProjectionOperator", [&] { n.op = createProjectionOperator(in.op, nc, (uint8_t *)cl.p); }); if (!n.op) noCreate("createProjectionOperator", h0); q.ops.push_back(n.op);
    return n;
}
static Node joinN(Query &q, const Node &a, const Node &b) {
    Node n; n.r.cols = a.r.cols; n.r.cols.insert(n.r.cols.end(), b.r.cols.begin(), b.r.cols.end());
    for (auto &x : a.r.rows) for (auto &y : b.r.rows) if (num(x.data(), a.r.cols[0]) == num(y.data(), b.r.cols[0])) { auto o = x; o.insert(o.end(), y.begin(), y.end()); n.r.rows.push_back(o); }
    int h0 = oomHits; api("createKeyJoinOperator", [&] { n.op = createKeyJoinOperator(a.op, b.op); }); if (!n.op) noCreate("createKeyJoinOperator", h0); q.ops.push_back(n.op); q.join = true; q.joined.insert(b.op);
    return n;
}
// aggregates: g = grouping column (of the input); outputs: group label, then the functions asked for (letters c s m M a A + column)
// every aggregate has functions of its own to compare groups and to copy the label (several may be open)
static int gOffs[8], gSizes[8], gNext;
template <int I> static int8_t sameGroupF(const void *a, const void *b) { return memcmp((const u8 *)a + gOffs[I], (const u8 *)b + gOffs[I], gSizes[I]) == 0; }
template <int I> static void labelF(embedDBAggregateFunc *f, embedDBSchema *s, void *rec, const void *last) { memcpy((u8 *)rec + getColOffsetFromSchema(s, f->colNum), (const u8 *)last + gOffs[I], gSizes[I]); }
static decltype(&sameGroupF<0>) sameGroups[8] = {sameGroupF<0>, sameGroupF<1>, sameGroupF<2>, sameGroupF<3>, sameGroupF<4>, sameGroupF<5>, sameGroupF<6>, sameGroupF<7>};
static decltype(&labelF<0>) labels[8] = {labelF<0>, labelF<1>, labelF<2>, labelF<3>, labelF<4>, labelF<5>, labelF<6>, labelF<7>};
struct AggOut { char f; int col; };
static bool sumsFit;           // every sum of this table fits the 64-bit result
static Node agg(Query &q, const Node &in, int g, const std::vector<AggOut> &outs, bool wantLabel = true) {
    Node n; Col gCol = in.r.cols[g]; int gs = gNext++ % 8, gOff = gOffs[gs] = in.r.off(g), gSize = gSizes[gs] = gCol.size; sumsFit = true;
    auto *fns = new std::vector<embedDBAggregateFunc>; q.fns.push_back(fns);
    if (wantLabel) { embedDBAggregateFunc lf; memset(&lf, 0, sizeof lf); lf.compute = labels[gs]; lf.colSize = gCol.sgn ? -gSize : gSize; fns->push_back(lf); n.r.cols.push_back(gCol); }
    for (auto &o : outs) {
        embedDBAggregateFunc *f = nullptr; int h0 = oomHits; Col c = in.r.cols[o.col]; int8_t cs = c.sgn ? -c.size : c.size;
        api("create aggregate", [&] { f = o.f == 'c' ? createCountAggregate() : o.f == 's' ? createSumAggregate(o.col) : o.f == 'm' ? createMinAggregate(o.col, cs) : o.f == 'M' ? createMaxAggregate(o.col, cs) : createAvgAggregate(o.col, o.f == 'a' ? 4 : 8); });
        if (!f) noCreate("creating the aggregate", h0); fns->push_back(*f); mc_free(f);
        n.r.cols.push_back(o.f == 'c' ? Col{4, false} : o.f == 's' ? Col{8, true} : o.f == 'm' || o.f == 'M' ? c : Col{o.f == 'a' ? 4 : 8, false});
    }
    for (size_t i = 0; i < in.r.rows.size();) {
        size_t j = i + 1; while (j < in.r.rows.size() && !memcmp(in.r.rows[j].data() + gOff, in.r.rows[i].data() + gOff, gSize)) j++;
        std::vector<u8> o(n.r.width()); int p = 0; if (wantLabel) { memcpy(o.data(), in.r.rows[i].data() + gOff, gSize); p = gSize; }
        for (auto &x : outs) {
            Col c = in.r.cols[x.col]; int f = in.r.off(x.col); i128 s = 0, mn = 0, mx = 0; for (size_t r = i; r < j; r++) { i128 v = num(in.r.rows[r].data() + f, c); s += v; if (r == i || v < mn) mn = v; if (r == i || v > mx) mx = v; }
            if (c.sgn ? s < -((i128)1 << 63) || s >= (i128)1 << 63 : s >= (i128)1 << 64) sumsFit = false;
            if (x.f == 'c') { put(o.data() + p, {4, false}, j - i); p += 4; }
            else if (x.f == 's') { put(o.data() + p, {8, false}, s); p += 8; }
            else if (x.f == 'm') { put(o.data() + p, c, mn); p += c.size; } else if (x.f == 'M') { put(o.data() + p, c, mx); p += c.size; }
            else if (x.f == 'a') { float a = (float)((long double)s / (j - i)); memcpy(o.data() + p, &a, 4); p += 4; } else { double a = (double)((long double)s / (j - i)); memcpy(o.data() + p, &a, 8); p += 8; }
        }
        n.r.rows.push_back(o); i = j;
    }
    int h0 = oomHits; api("createAggregateOperator", [&] { n.op = createAggregateOperator(in.op, sameGroups[gs], fns->data(), fns->size()); }); if (!n.op) noCreate("createAggregateOperator", h0); q.ops.push_back(n.op);
    return n;
}
// compares one result row; floating columns (kind a/A at given column) with rounding of the result type
static std::string fcols;     // per output column: ' ' exact, 'a' float, 'A' double, 's' sum
static bool rowEq(const u8 *got, const std::vector<u8> &want, const std::vector<Col> &cs) {
    int p = 0;
    for (size_t i = 0; i < cs.size(); i++) {
        char k = i < fcols.size() ? fcols[i] : ' ';
        if (k == 'a' || k == 'A') { if (sumsFit) { double x, y; if (k == 'a') { float f, g; memcpy(&f, got + p, 4); memcpy(&g, want.data() + p, 4); x = f; y = g; } else { memcpy(&x, got + p, 8); memcpy(&y, want.data() + p, 8); } double e = (k == 'a' ? 4e-7 : 1e-15) * (y < 0 ? -y : y); if (!(x - y <= e && y - x <= e)) return false; } }
        else if (k == 's' && !sumsFit) {}
        else if (memcmp(got + p, want.data() + p, cs[i].size)) return false;
        p += cs[i].size;
    }
    return true;
}
static void closeQuery(Query &q, embedDBOperator *top, bool alone = true) {
    api("close", [&] { top->close(top); });
    if (q.join) { for (void *o : q.ops) mc_free(o); } else api("embedDBFreeOperatorRecursive", [&] { embedDBFreeOperatorRecursive(&top); });
    for (auto *v : q.fns) { for (auto &f : *v) if (f.state) mc_free(f.state); delete v; } q.fns.clear();
    for (size_t i = 0; i < q.its.size(); i++) { api("embedDBCloseIterator", [&] { embedDBCloseIterator(q.its[i]); }); delete q.its[i]; }
    for (auto *e : q.vals) delete e;
    memCheck("close");
    if (alone && W->liveAllocs != q.base) vio("%d heap blocks are still allocated after closing and freeing the query", (int)W->liveAllocs - (int)q.base);
}
static int extraCalls = 3, again = -1;      // again: initialise once more after that many rows
static void run(Query &q, const Node &n) {
    nStates++; nTrans += q.ops.size(); sample();
    embedDBOperator *top = n.op; api("init", [&] { top->init(top); });
    if (!top->schema || top->schema->numCols != n.r.cols.size()) vio("the result has %d columns, not %zu", top->schema ? top->schema->numCols : -1, n.r.cols.size());
    for (size_t i = 0; i < n.r.cols.size(); i++) { char k = i < fcols.size() ? fcols[i] : ' '; int e = n.r.cols[i].sgn ? -n.r.cols[i].size : n.r.cols[i].size; if (top->schema->columnSizes[i] != e && k != 'a' && k != 'A') vio("result column %zu has size code %d, not %d", i, top->schema->columnSizes[i], e); }
    if (again >= 0) {
        for (int i = 0; i < again; i++) { int8_t rc = 99; api("exec", [&] { rc = exec(top); }); bool want = i < (int)n.r.rows.size(); if (!!rc != want || (want && !rowEq((u8 *)top->recordBuffer, n.r.rows[i], n.r.cols))) vio("row %d of the first pass is wrong", i); }
        api("init", [&] { top->init(top); });
    }
    for (size_t i = 0; i <= n.r.rows.size() + extraCalls - 1; i++) {
        int8_t rc = 99; nObs++; api("exec", [&] { rc = exec(top); });
        if (i < n.r.rows.size()) {
            if (!rc) vio("the query ended after %zu of %zu rows; missing %s", i, n.r.rows.size(), rowStr(n.r.rows[i].data(), n.r.cols).c_str());
            if (!rowEq((u8 *)top->recordBuffer, n.r.rows[i], n.r.cols)) vio("row %zu is %s, not %s", i, rowStr((u8 *)top->recordBuffer, n.r.cols).c_str(), rowStr(n.r.rows[i].data(), n.r.cols).c_str());
        } else if (rc) vio("the query returned %s after its end (%zu rows; call %zu after the end)", rowStr((u8 *)top->recordBuffer, n.r.cols).c_str(), n.r.rows.size(), i - n.r.rows.size() + 1);
    }
    memCheck("exec"); closeQuery(q, top);
}
// ------------------------------------------------------------------ value classes
static std::vector<i128> values(Col c, int lim = 99) {
    int b = 8 * c.size; i128 one = 1; std::vector<i128> v;
    auto add = [&](i128 x) { for (i128 y : v) if (y == x) return; v.push_back(x); };
    if (c.sgn) { add(-1); add(-(one << (b - 1))); add((one << (b - 1)) - 1); add(0); add(1); if (b > 8) { add(255); add(256); add(-256); add(128); } else { add(-128); add(127); add(2); } if (b > 16) add(-(one << (b - 9))); if (b >= 32) add((one << (b - 8)) + 3); if (b > 32) add(one << 32); }
    else { add((one << b) - 1); add(0); add(one << (b - 1)); add(1); if (b > 8) { add(255); add(256); add((one << (b - 8)) + 5); } if (b > 32) { add(one << 32); add((one << 31)); } add((one << (b - 1)) - 1); }
    if ((int)v.size() > lim) v.resize(lim);
    return v;
}
static int colI(int w) { return w; }
static Rel mkRel(const std::vector<Col> &cols, const std::vector<std::vector<i128>> &rows) { Rel r; r.cols = cols; for (auto &x : rows) { std::vector<u8> b(r.width()); int p = 0; for (size_t i = 0; i < cols.size(); i++) { put(b.data() + p, cols[i], x[i]); p += cols[i].size; } r.rows.push_back(b); } return r; }
static void descr(const char *t, const Rel &r, int fl) { std::string s = t; s += ":"; for (auto &c : r.cols) { s += c.sgn ? 'i' : 'u'; s += std::to_string(c.size * 8); s += ','; } for (auto &x : r.rows) s += rowStr(x.data(), r.cols); s += "/flush" + std::to_string(fl); path = {s}; }
// all tables of one tested column with n rows; one selection, optionally under a projection
static void modeSel() {
    int n = argI("n", 2), k = argI("k", 4), lim = argI("vals", 9);
    for (int w = 1; w <= 8; w++) for (int sg = 0; sg < 2; sg++) {
        Col c{w, (bool)sg}; auto V = values(c, lim); std::vector<int> ix(n, 0);
        for (int rows = 0; rows <= n; rows++) {
            std::fill(ix.begin(), ix.end(), 0);
            for (;;) {
                std::vector<std::vector<i128>> rs; for (int i = 0; i < rows; i++) rs.push_back({10 + 300 * i, 0x5A + i, V[ix[i]], i});
                Rel r = mkRel({{k, false}, {1, false}, c, {2, true}}, rs); int fl = (ix[0] + rows) % (rows + 1);
                freshWorld(); descr("T", r, fl); Tab t = openTab(0, r, fl);
                for (i128 v : V) for (int op = 0; op < 6; op++) {
                    path.resize(1); path.push_back(std::string("c2") + opN[op] + str(v));
                    Query q; Node s = scan(q, t); Node x = sel(q, s, 2, op, v); run(q, x);
                }
                path.resize(1); closeTab(t);
                int i = 0; while (i < rows && ++ix[i] == (int)V.size()) ix[i++] = 0;
                if (i == rows) break;
            }
        }
    }
}
// all pipelines of selections and projections up to a depth over one table
static Rel pipeTab; static std::vector<std::vector<i128>> pipeVals;
struct Step { char k; int a, op; i128 v; };
static void pipes(Tab &t, std::vector<Step> &st, int depth, const std::vector<Col> &cols, const std::vector<int> &orig, const u8 *lo, const u8 *hi) {
    {
        Query q; Node n = scan(q, t, lo, hi); for (auto &s : st) n = s.k == 'S' ? sel(q, n, s.a, s.op, s.v) : proj(q, n, s.a); run(q, n);
    }
    if (!depth) return;
    for (size_t c = 0; c < cols.size(); c++) for (i128 v : pipeVals[orig[c]]) for (int op = 0; op < 6; op++) {
        st.push_back({'S', (int)c, op, v}); path.push_back("S" + std::to_string(c) + opN[op] + str(v)); pipes(t, st, depth - 1, cols, orig, lo, hi); st.pop_back(); path.pop_back();
    }
    for (u32 m = 1; m < 1u << cols.size(); m++) {
        std::vector<Col> c2; std::vector<int> o2; for (size_t i = 0; i < cols.size(); i++) if (m >> i & 1) { c2.push_back(cols[i]); o2.push_back(orig[i]); }
        st.push_back({'P', (int)m, 0, 0}); path.push_back("P" + std::to_string(m)); pipes(t, st, depth - 1, c2, o2, lo, hi); st.pop_back(); path.pop_back();
    }
}
static void modePipe() {
    int depth = argI("depth", 2), n = argI("n", 5), k = argI("k", 4), which = argI("schema", 0);
    std::vector<std::vector<Col>> schemas = {{{k, false}, {4, true}, {2, false}, {1, true}}, {{k, false}, {1, false}, {8, true}}, {{k, false}, {3, true}, {5, false}, {7, true}}, {{k, false}, {4, true}, {4, true}, {4, true}, {4, false}}, {{k, false}, {100, false}, {2, true}}};
    auto cols = schemas[which]; std::vector<std::vector<i128>> rs; i128 mx = ((i128)1 << (8 * k)) - 1;
    for (int i = 0; i < n; i++) { std::vector<i128> r; r.push_back(argI("keyhi", 0) ? ((i128)1 << (8 * k - 1)) - 5 + 3 * i : k == 1 ? 20 + 40 * i : 250 + 3 * i); for (size_t c = 1; c < cols.size(); c++) { auto V = cols[c].size > 8 ? std::vector<i128>{7, 300} : values(cols[c], 5); r.push_back(V[(i * (c + 1) + c) % V.size()]); } rs.push_back(r); }
    pipeTab = mkRel(cols, rs); pipeVals.clear();
    for (size_t c = 0; c < cols.size(); c++) { std::vector<i128> v; if (c == 0) v = {num(pipeTab.rows[n / 2].data(), cols[0]), mx}; else if (cols[c].size > 8) v = {7, 299}; else { auto V = values(cols[c], 5); v = {V[0], V[3]}; } pipeVals.push_back(v); }
    for (int fl = 0; fl <= n; fl += n > 1 ? 2 : 1) {
        freshWorld(); descr("T", pipeTab, fl); Tab t = openTab(0, pipeTab, fl); std::vector<Step> st; std::vector<int> orig; for (size_t i = 0; i < cols.size(); i++) orig.push_back(i);
        pipes(t, st, depth, cols, orig, 0, 0);
        if (argI("dbounds", 0)) for (int l = 0; l <= n; l++) for (int h = 0; h <= n; h++) if (l < n || h < n) { dLo = l < n ? (int8_t)pipeTab.rows[l][k] : -999; dHi = h < n ? (int8_t)pipeTab.rows[h][k] : -999; path.push_back("data" + std::to_string(dLo) + ".." + std::to_string(dHi)); pipes(t, st, 1, cols, orig, 0, 0); path.pop_back(); dLo = dHi = -999; }
        for (int l = -1; l < n; l++) for (int h = -1; h < n; h++) if (l >= 0 || h >= 0) { path.push_back("keys" + std::to_string(l) + ".." + std::to_string(h)); pipes(t, st, depth > 1 ? 1 : depth, cols, orig, l >= 0 ? pipeTab.rows[l].data() : 0, h >= 0 ? pipeTab.rows[h].data() : 0); path.pop_back(); }
        path.resize(1); closeTab(t);
    }
}
static void aggQuery(Tab &t, int variant, const std::vector<i128> &V) {
    Query q; Node n = scan(q, t);
    if (variant == 1) n = sel(q, n, 2, SELECT_NEQ, V[0]);
    if (variant == 2) n = sel(q, n, 0, SELECT_LT, 0);                       // nothing left
    std::vector<AggOut> outs = {{'c', 2}, {'s', 2}, {'m', 2}, {'M', 2}, {'a', 2}, {'A', 2}};
    bool lab = variant != 3; if (variant == 4) outs = {{'M', 2}, {'m', 2}, {'s', 3}, {'A', 3}, {'M', 3}, {'m', 3}};
    n = agg(q, n, 1, outs, lab);
    fcols = lab ? " " : ""; for (auto &o : outs) fcols += o.f == 'a' || o.f == 'A' || o.f == 's' ? o.f : ' ';
    run(q, n); fcols.clear();
}
// all tables of n rows x all partitions into groups x widths and signedness
static void modeAgg() {
    int n = argI("n", 3), k = argI("k", 4), lim = argI("vals", 6), w0 = argI("w0", 1), w1 = argI("w1", 8);
    for (int w = w0; w <= w1; w++) for (int sg = 0; sg < 2; sg++) {
        Col c{w, (bool)sg}; auto V = values(c, lim); std::vector<int> ix(n, 0); auto V2 = values({2, true}, 5);
        for (int rows = 0; rows <= n; rows++) for (int part = 0; part < (rows > 1 ? 1 << (rows - 1) : 1); part++) {
            std::fill(ix.begin(), ix.end(), 0);
            for (;;) {
                std::vector<std::vector<i128>> rs; int g = 3; for (int i = 0; i < rows; i++) { if (i && (part >> (i - 1) & 1)) g++; rs.push_back({10 + 300 * i, g, V[ix[i]], V2[(ix[i] + i) % 5]}); }
                Rel r = mkRel({{k, false}, {1, false}, c, {2, true}}, rs); int fl = (ix[0] + rows) % (rows + 1);
                freshWorld(); descr("T", r, fl); Tab t = openTab(0, r, fl);
                for (int var = 0; var < 5; var++) { if (var && rows > 3 && argI("full", 0) == 0) break; path.resize(1); path.push_back("agg" + std::to_string(var)); aggQuery(t, var, V); }
                path.resize(1); closeTab(t);
                int i = 0; while (i < rows && ++ix[i] == (int)V.size()) ix[i++] = 0;
                if (i == rows) break;
            }
        }
    }
}
// pipelines above and below aggregation
static void modeAggPipe() {
    int n = argI("n", 6), k = 4; Col c{4, true}; auto V = values(c, 5);
    for (int part = 0; part < 1 << (n - 1); part++) for (int fl = 0; fl <= n; fl += 3) {
        std::vector<std::vector<i128>> rs; int g = -2; for (int i = 0; i < n; i++) { if (i && (part >> (i - 1) & 1)) g++; rs.push_back({10 + 300 * i, g, V[(i * 2 + part) % 5], i - 3}); }
        Rel r = mkRel({{k, false}, {2, true}, c, {1, true}}, rs); freshWorld(); descr("T", r, fl); Tab t = openTab(0, r, fl);
        for (int below = 0; below < 4; below++) for (int col = 0; col < 4; col++) for (int op = 0; op < 6; op++) for (u32 m = 0; m < 16; m++) {
            path.resize(1); path.push_back("below" + std::to_string(below) + " c" + std::to_string(col) + opN[op] + " P" + std::to_string(m));
            Query q; Node x = scan(q, t); int gc = 1, vc = 2;
            if (below & 1) x = sel(q, x, 3, SELECT_NEQ, 0);
            if (below & 2) { x = proj(q, x, 6); gc = 0; vc = 1; }
            x = agg(q, x, gc, {{'c', vc}, {'M', vc}, {'s', vc}});
            i128 v = col == 0 ? -1 : col == 1 ? 2 : col == 2 ? V[3] : V[0];
            x = sel(q, x, col, op, v); if (m) x = proj(q, x, m);
            run(q, x);
        }
        path.resize(1); closeTab(t);
    }
}
// long groups through an input operator of our own
static std::vector<std::vector<u8>> mockRows; static size_t mockPos; static embedDBSchema *mockSchema; static std::vector<Col> mockCols;
static void mInit(embedDBOperator *op) { mockPos = 0; op->schema = copySchema(mockSchema); op->recordBuffer = createBufferFromSchema(op->schema); }
static int8_t mNext(embedDBOperator *op) { if (mockPos >= mockRows.size()) return 0; memcpy(op->recordBuffer, mockRows[mockPos].data(), mockRows[mockPos].size()); mockPos++; return 1; }
static void mClose(embedDBOperator *op) { embedDBFreeSchema(&op->schema); mc_free(op->recordBuffer); op->recordBuffer = nullptr; }
static void modeLong() {
    std::vector<int> lens; for (auto &x : split(argS("len", "1,2,127,128,129,255,256,257,300"), ',')) lens.push_back(atoi(x.c_str()));
    mockCols = {{4, false}, {2, false}, {4, true}}; int8_t sz[3] = {4, 2, 4}, sg[3] = {embedDB_COLUMN_UNSIGNED, embedDB_COLUMN_UNSIGNED, embedDB_COLUMN_SIGNED};
    for (int a : lens) for (int b : lens) for (int skip = 0; skip < 2; skip++) {
        freshWorld(); api("embedDBCreateSchema", [&] { mockSchema = embedDBCreateSchema(3, sz, sg); });
        path = {"groups " + std::to_string(a) + "," + std::to_string(b) + " sel" + std::to_string(skip)};
        std::vector<std::vector<i128>> rs; for (int i = 0; i < a + b; i++) rs.push_back({i, i < a ? 1 : 2, i % 7 * 1000 - 2000});
        Node n; n.r = mkRel(mockCols, rs); mockRows = n.r.rows; Query q; n.op = (embedDBOperator *)mc_malloc(sizeof(embedDBOperator)); memset(n.op, 0, sizeof *n.op); n.op->init = mInit; n.op->next = mNext; n.op->close = mClose; q.ops.push_back(n.op);
        if (skip) n = sel(q, n, 0, SELECT_GTE, a + b - 2);
        n = agg(q, n, 1, {{'c', 0}, {'s', 2}, {'m', 2}, {'M', 2}, {'A', 2}}); fcols = "    A";
        fcols = " "; fcols += "    A";
        run(q, n); fcols.clear();
        api("embedDBFreeSchema", [&] { embedDBFreeSchema(&mockSchema); });
    }
}
// rows that are wider than a table allows (results of joins, operators of the user): all sequences of column widths
struct Mock { Rel r; size_t pos; embedDBSchema *schema; };
static void wInit(embedDBOperator *op) { Mock *m = (Mock *)op->state; m->pos = 0; if (!op->schema) op->schema = copySchema(m->schema); if (op->schema && !op->recordBuffer) op->recordBuffer = createBufferFromSchema(op->schema); }
static int8_t wNext(embedDBOperator *op) { Mock *m = (Mock *)op->state; if (m->pos >= m->r.rows.size()) return 0; memcpy(op->recordBuffer, m->r.rows[m->pos].data(), m->r.rows[m->pos].size()); m->pos++; return 1; }
static void wClose(embedDBOperator *op) { embedDBFreeSchema(&op->schema); mc_free(op->recordBuffer); op->recordBuffer = nullptr; op->state = nullptr; }
static Mock mocks[3];
static Node mock(Query &q, int id, const Rel &r) {
    Mock &m = mocks[id]; m.r = r; std::vector<int8_t> sz, sg; for (auto &c : r.cols) { sz.push_back(c.size); sg.push_back(c.sgn ? embedDB_COLUMN_SIGNED : embedDB_COLUMN_UNSIGNED); }
    api("embedDBCreateSchema", [&] { m.schema = embedDBCreateSchema(sz.size(), sz.data(), sg.data()); }); if (!m.schema) vio("embedDBCreateSchema failed");
    Node n; n.r = r; n.op = (embedDBOperator *)mc_malloc(sizeof(embedDBOperator)); memset(n.op, 0, sizeof *n.op); n.op->state = &m; n.op->init = wInit; n.op->next = wNext; n.op->close = wClose; q.ops.push_back(n.op); return n;
}
static void wideDone(u32 base) { for (auto &m : mocks) if (m.schema) api("embedDBFreeSchema", [&] { embedDBFreeSchema(&m.schema); m.schema = nullptr; }); if (W->liveAllocs != base) vio("%d heap blocks are still allocated", (int)W->liveAllocs - (int)base); }
static Rel wideRel(const std::vector<Col> &cols, int rows, int mul, int salt) {
    Rel r; r.cols = cols; int w = r.width();
    for (int i = 0; i < rows; i++) { std::vector<u8> b(w); for (int p = 0; p < w; p++) b[p] = (u8)(p * 5 + p / 256 * 3 + i * 17 + salt); put(b.data(), cols[0], 7 + mul * i); r.rows.push_back(b); }
    return r;
}
static void wideQueries(const std::vector<Col> &cols, bool all) {
    Rel a = wideRel(cols, 4, 1, 1); int nc = cols.size(); u32 full = nc >= 31 ? 0 : (1u << nc) - 1, base = W->liveAllocs;
    std::vector<std::vector<u8>> sets; std::vector<u8> every; for (int i = 0; i < nc; i++) every.push_back(i); sets.push_back(every);
    for (int i = 0; i < nc; i++) { sets.push_back({(u8)i}); if (nc > 1) { auto e = every; e.erase(e.begin() + i); sets.push_back(e); } }
    if (nc > 40) { std::vector<std::vector<u8>> few; for (size_t i = 0; i < sets.size(); i += i < 8 || i > sets.size() - 9 ? 1 : 13) few.push_back(sets[i]); sets = few; }
    (void)full; (void)all;
    std::string parts = argS("parts", "PSAJ"); auto has = [&](char c) { return parts.find(c) != std::string::npos; };
    if (has('P')) for (auto &cs : sets) {                                   // projections
        path.resize(1); std::string d = "P"; for (u8 c : cs) { d += std::to_string(c) + "."; if (d.size() > 60) break; } path.push_back(d + "#" + std::to_string(cs.size()));
        Query q; Node x = mock(q, 0, a), n; for (u8 c : cs) n.r.cols.push_back(cols[c]);
        for (auto &r : a.rows) { std::vector<u8> o; for (u8 c : cs) { int f = a.off(c); o.insert(o.end(), r.begin() + f, r.begin() + f + cols[c].size); } n.r.rows.push_back(o); }
        Exact cl(cs.size(), cs.data()); int h0 = oomHits; api("createProjectionOperator", [&] { n.op = createProjectionOperator(x.op, cs.size(), (uint8_t *)cl.p); }); if (!n.op) noCreate("createProjectionOperator", h0); q.ops.push_back(n.op);
        q.base++; /* the schema of the input lives longer */ q.base++; run(q, n); wideDone(base);
    }
    for (int c = 0; c < nc; c++) if (cols[c].size <= 8 && (nc <= 40 || c < 3 || c > nc - 4 || c % 40 == 0)) {   // selections, aggregates
        if (has('S')) for (int op = 0; op < 6; op++) for (int i = 0; i < 4; i += 2) { path.resize(1); path.push_back("c" + std::to_string(c) + opN[op] + "row" + std::to_string(i)); Query q; Node x = mock(q, 0, a); q.base += 2; Node n = sel(q, x, c, op, num(a.rows[i].data() + a.off(c), cols[c])); run(q, n); wideDone(base); }
        if (has('A')) for (int g = 0; g < nc; g += nc - 1 ? nc - 1 : 1) { path.resize(1); path.push_back("agg c" + std::to_string(c) + " by " + std::to_string(g)); Rel b = a; int go = b.off(g); for (int i = 1; i < 4; i += 2) memcpy(b.rows[i].data() + go, b.rows[i - 1].data() + go, cols[g].size); Query q; Node x = mock(q, 0, b); q.base += 2; Node n = agg(q, x, g, {{'c', c}, {'m', c}, {'M', c}, {'s', c}}); run(q, n); wideDone(base); }
    }
    if (nc > 120 || !has('J')) return;                                                   // joins: the left, the right or both sides are wide
    for (int side = 0; side < 4; side++) {
        path.resize(1); path.push_back("join" + std::to_string(side)); Rel s = wideRel({cols[0], {2, true}}, 3, 2, 9), s2 = wideRel({cols[0], {1, false}, {8, true}}, 4, 3, 90);
        Query q; Node l = mock(q, 0, side == 1 ? s : a), r = mock(q, 1, side == 0 || side == 3 ? s : wideRel(cols, 3, 2, 40)); q.base += 4; Node j = joinN(q, l, r);
        if (side == 3) { Node t = mock(q, 2, s2); q.base += 2; j = joinN(q, j, t); }
        run(q, j); wideDone(base);
    }
}
static void modeWide() {
    int L = argI("cols", 4), k = argI("k", 4); std::vector<int> sizes; for (auto &x : split(argS("sizes", "1,60,127"), ',')) sizes.push_back(atoi(x.c_str()));
    std::vector<int> ix;
    for (int n = 0; n <= L; n++) { ix.assign(n, 0); for (;;) {
        std::vector<Col> cols = {{k, false}}; for (int i : ix) cols.push_back({sizes[i], sizes[i] == 1 && i % 2 == 0}); cols.push_back({2, true});
        freshWorld(); std::string d = "widths"; for (auto &c : cols) d += "." + std::to_string(c.size); path = {d}; wideQueries(cols, true);
        int i = 0; while (i < n && ++ix[i] == (int)sizes.size()) ix[i++] = 0;
        if (i == n) break;
    } }
    for (int nc : {9, 17, 33, 128, 254, 255}) for (int w : {1, 127}) { std::vector<Col> cols = {{k, false}}; while ((int)cols.size() < nc - 1) cols.push_back({w, false}); cols.push_back({2, true}); freshWorld(); path = {std::to_string(nc) + " columns of " + std::to_string(w)}; wideQueries(cols, false); }
}
// queries that are initialised again after any number of rows (their input starts over)
static void modeAgain() {
    int n = argI("n", 5); Col c{2, true}; auto V = values(c, 4);
    for (u32 part = 0; part < 1u << (n - 1); part++) for (int rows = 0; rows <= n; rows++) {
        std::vector<std::vector<i128>> rs, rt; int g = 7; for (int i = 0; i < rows; i++) { if (i && (part >> (i - 1) & 1)) g += 250; rs.push_back({10 + 2 * i, g, V[(i + part) % 4]}); rt.push_back({10 + 2 * i + (part >> i & 1), i}); }
        Rel a = mkRel({{4, false}, {2, false}, c}, rs), b = mkRel({{4, false}, {1, true}}, rt); u32 base = W->liveAllocs;
        for (int kind = 0; kind < 9; kind++) for (again = -1; again <= rows + 2; again++) {
            freshWorld(); std::string d = "T"; for (auto &r : a.rows) d += rowStr(r.data(), a.cols); d += " kind" + std::to_string(kind) + " again" + std::to_string(again); path = {d};
            Query q; bool two = kind >= 5; Node x = mock(q, 0, a), y; q.base += 2; if (two) { y = mock(q, 1, b); q.base += 2; }
            std::vector<AggOut> fs = {{'c', 2}, {'s', 2}, {'m', 2}, {'M', 2}};
            if (kind == 0) x = sel(q, x, 2, SELECT_GT, 0);
            if (kind == 1) x = proj(q, x, 5);
            if (kind == 2) x = agg(q, x, 1, fs);
            if (kind == 3) x = agg(q, sel(q, x, 0, SELECT_NEQ, 12), 1, fs);
            if (kind == 4) x = proj(q, sel(q, agg(q, x, 1, fs), 1, SELECT_LTE, 2), 6);
            if (kind == 5) x = joinN(q, x, y);
            if (kind == 6) x = joinN(q, y, x);
            if (kind == 7) x = joinN(q, sel(q, x, 1, SELECT_GT, 7), proj(q, y, 1));
            if (kind == 8) x = agg(q, joinN(q, x, y), 1, fs);
            run(q, x); wideDone(base);
        }
        again = -1;
    }
}
// two queries open at the same time, on the same or on different databases: all interleavings of their calls
static Node twoKind(Query &q, int kind, Tab &t, int col, i128 v) {
    std::vector<AggOut> fs = {{'c', 2}, {'s', 2}, {'m', 2}, {'M', 2}}; Node x = scan(q, t);
    switch (kind) {
        case 1: return sel(q, x, col, SELECT_GT, v);
        case 2: return proj(q, x, 5);
        case 3: return agg(q, x, 1, fs);
        case 4: return agg(q, sel(q, x, 2, SELECT_NEQ, v), 1, fs);
        case 5: return proj(q, sel(q, agg(q, x, 1, fs), 1, SELECT_LTE, 2), 6);
        case 6: { Node y = sel(q, scan(q, t), 0, SELECT_GT, num(t.r.rows[0].data(), t.r.cols[0])); return joinN(q, x, y); }
        case 7: { Node y = proj(q, scan(q, t), 5); return agg(q, joinN(q, sel(q, x, 2, SELECT_NEQ, v + 1), y), 1, fs); }
        case 8: { Node y = proj(q, scan(q, t), 5); return joinN(q, x, y); }
        case 9: return agg(q, agg(q, x, 1, fs), 1, {{'s', 1}, {'M', 4}});
        default: return x;
    }
}
struct TwoQ { Query q; Node n; size_t at = 0; bool inited = false, closed = false; };
static void twoStep(TwoQ &t) {
    embedDBOperator *top = t.n.op; nTrans++;
    if (!t.inited) { api("init", [&] { top->init(top); }); t.inited = true; return; }
    if (t.at > t.n.r.rows.size()) { closeQuery(t.q, top, false); t.closed = true; return; }
    int8_t rc = 99; nObs++; api("exec", [&] { rc = exec(top); });
    if (t.at < t.n.r.rows.size()) {
        if (!rc) vio("a query ended after %zu of %zu rows while another one was open", t.at, t.n.r.rows.size());
        if (!rowEq((u8 *)top->recordBuffer, t.n.r.rows[t.at], t.n.r.cols)) vio("row %zu is %s, not %s, while another query was open", t.at, rowStr((u8 *)top->recordBuffer, t.n.r.cols).c_str(), rowStr(t.n.r.rows[t.at].data(), t.n.r.cols).c_str());
    } else if (rc) vio("a query returned a row after its end while another one was open");
    t.at++;
}
static void modeTwo() {
    int n = argI("n", 3), k0 = argI("k0", 0), k1 = argI("k1", 9); Col c{2, true};
    for (int part = 0; part < 1 << (n - 1); part++) for (int same = 0; same < 2; same++) for (int fl = 0; fl <= n; fl += n) for (int a = k0; a <= k1; a++) for (int b = 0; b < 10; b++) {
        std::vector<std::vector<i128>> rs, rt; int g = 7; for (int i = 0; i < n; i++) { if (i && (part >> (i - 1) & 1)) g += 250; rs.push_back({10 + 65536 * i, g, (i * 5 - 4) % 7}); rt.push_back({9 + 3 * i, g & 3, 70000 - 50000 * i}); }
        Rel r1 = mkRel({{4, false}, {2, false}, c}, rs), r2 = mkRel({{2, false}, {1, false}, {4, true}}, rt);
        int steps[2] = {-1, -1};
        for (u32 m = 0;; m++) {                 // m: which query makes each step (bit 0 first)
            if (steps[0] >= 0) { int T = steps[0] + steps[1]; if (m >> T) break; if (__builtin_popcount(m) != steps[1]) continue; }
            freshWorld(); descr("T", r1, fl); path[0] += " kind" + std::to_string(a) + "," + std::to_string(b) + (same ? " same" : " other") + " m" + std::to_string(m); nStates++; sample();
            Tab t1 = openTab(0, r1, fl), t2 = same ? t1 : openTab(1, r2, n - fl); u32 base = W->liveAllocs;
            { TwoQ q[2]; for (int i = 0; i < 2; i++) { q[i].n = twoKind(q[i].q, i ? b : a, i ? t2 : t1, 2, i && !same ? 20000 : 1); }
              bool known = steps[0] >= 0; if (!known) for (int i = 0; i < 2; i++) steps[i] = q[i].n.r.rows.size() + 3;
              for (int i = 0; i < steps[0] + steps[1]; i++) { int w = known ? m >> i & 1 : i >= steps[0]; twoStep(q[w]); }
              if (!q[0].closed || !q[1].closed) vio("a query was not closed"); }
            memCheck("two queries"); if (W->liveAllocs != base) vio("%d heap blocks are still allocated after two queries", (int)W->liveAllocs - (int)base);
            if (!same) closeTab(t2); closeTab(t1);
        }
    }
}
// operators of the same kind inside each other: aggregates of aggregates, joins of joins, aggregates on both sides of a join
static void modeNest() {
    int n = argI("n", 5), part0 = argI("kind", -1); Col c{4, true}; auto V = values(c, 5);
    if (part0 != 1) for (u32 part = 0; part < 1u << (n - 1); part++) for (int rows = 0; rows <= n; rows++) {
        if (rows && rows < n && part >> (rows - 1)) continue;
        std::vector<std::vector<i128>> rs; int g = -2; for (int i = 0; i < rows; i++) { if (i && (part >> (i - 1) & 1)) g++; rs.push_back({10 + 300 * i, g, V[(i * 2 + part) % 5], (i + 1) / 2}); }
        Rel r = mkRel({{4, false}, {2, true}, c, {1, true}}, rs); int fl = (part + rows) % (rows + 1); freshWorld(); descr("T", r, fl); Tab t = openTab(0, r, fl);
        for (int g1 = 0; g1 < 4; g1++) for (int mid = 0; mid < 4; mid++) for (int g2 = 0; g2 < 5; g2++) for (int top = 0; top < 3; top++) {
            path.resize(1); path.push_back("by" + std::to_string(g1) + " mid" + std::to_string(mid) + " by" + std::to_string(g2) + " top" + std::to_string(top));
            Query q; Node x = agg(q, scan(q, t), g1, {{'c', 2}, {'s', 2}, {'m', 2}, {'M', 3}}); int a = 1, b = 4, w = 3, gg = g2;
            if (mid == 1) x = sel(q, x, 1, SELECT_NEQ, 2);
            if (mid == 2) { x = proj(q, x, 0x1B); w = 2; b = 3; if (gg > 3) gg = 3; }
            if (mid == 3) x = sel(q, x, 3, SELECT_GTE, V[3]);
            x = agg(q, x, gg, {{'c', a}, {'s', a}, {'m', w}, {'M', b}});
            if (top == 1) x = agg(q, x, 1, {{'c', 1}, {'s', 2}, {'M', 0}, {'m', 0}});
            if (top == 2) x = proj(q, sel(q, x, 1, SELECT_GT, 1), 7);
            run(q, x);
        }
        path.resize(1); closeTab(t);
    }
    if (part0 == 0) return;
    int k = argI("k", 4), m = argI("m", 3); static const u64 K[5] = {1, 255, 256, 65536, 0xFF000001}; static const u64 K1[5] = {0, 1, 127, 128, 255}; static const u64 K2[5] = {1, 255, 256, 32768, 65535};
    auto mk = [&](const std::vector<Col> &cs, u32 set, int salt) { std::vector<std::vector<i128>> rs; for (int i = 0; i < m; i++) if (set >> i & 1) { std::vector<i128> r = {k == 1 ? (i128)K1[i] : k == 2 ? (i128)K2[i] : (i128)K[i]}; for (size_t j = 1; j < cs.size(); j++) r.push_back((i * 11 + salt + (int)j * 3) % 100); rs.push_back(r); } return mkRel(cs, rs); };
    u32 S = 1u << m; u32 base = 0;
    for (u32 a = 0; a < S; a++) for (u32 b = 0; b < S; b++) for (u32 d = 0; d < S; d++) for (int shape = 0; shape < 7; shape++) {
        freshWorld(); base = W->liveAllocs; path = {"sets " + std::to_string(a) + " " + std::to_string(b) + " " + std::to_string(d), "shape" + std::to_string(shape)};
        std::vector<Col> c1 = {{k, false}, {4, true}}, c2 = {{k, false}, {1, false}, {2, true}}, c3 = {{k, false}, {2, true}};
        Query q; Node x = mock(q, 0, mk(c1, a, 1)), y = mock(q, 1, mk(c2, b, 50)), z = mock(q, 2, mk(c3, d, 30)), j; q.base += 6;
        switch (shape) {
            case 0: j = joinN(q, joinN(q, x, y), z); break;
            case 1: j = joinN(q, x, joinN(q, y, z)); break;
            case 2: j = joinN(q, sel(q, joinN(q, x, y), 1, SELECT_NEQ, 15), proj(q, z, 3)); break;
            case 3: j = joinN(q, proj(q, x, 1), sel(q, joinN(q, z, y), 1, SELECT_GT, 40)); break;
            case 4: j = joinN(q, agg(q, x, 0, {{'c', 1}, {'s', 1}}), joinN(q, agg(q, y, 0, {{'M', 2}, {'c', 1}}), z)); break;
            case 5: j = agg(q, joinN(q, joinN(q, x, agg(q, y, 0, {{'m', 1}, {'c', 0}})), z), 3, {{'c', 0}, {'m', 0}, {'M', 0}}); break;
            default: j = joinN(q, agg(q, joinN(q, x, y), 0, {{'c', 1}, {'s', 3}}), agg(q, z, 0, {{'c', 0}, {'M', 1}})); break;
        }
        run(q, j); wideDone(base);
    }
}
// all pairs of key subsets x flush points x filters
static void modeJoin() {
    int n = argI("n", 5), k = argI("k", 4), filt = argI("filt", 1), self = argI("self", 0);
    static const u64 K8[8] = {1, 255, 256, 257, 65535, 65536, 0x01000000, 0xFF000001}; static const u64 K1[8] = {0, 1, 2, 127, 128, 129, 254, 255}; static const u64 K2[8] = {0, 1, 255, 256, 32767, 32768, 65534, 65535};
    std::vector<i128> keys; for (int i = 0; i < n; i++) keys.push_back(k == 1 ? K1[i] : k == 2 ? K2[i] : k == 8 && i >= 4 ? (i128)K8[i] << 32 : K8[i]);
    std::vector<Col> c1 = {{k, false}, {4, true}}, c2 = {{k, false}, {1, false}, {2, true}}; if (argI("wide", 0)) { c1 = {{k, false}, {2, false}, {8, true}, {1, true}}; c2 = {{k, false}, {4, true}}; }
    auto mk = [&](const std::vector<Col> &cs, u32 m, int salt) { std::vector<std::vector<i128>> rs; for (int i = 0; i < n; i++) if (m >> i & 1) { std::vector<i128> r = {keys[i]}; for (size_t c = 1; c < cs.size(); c++) r.push_back((i * 11 + salt + (int)c * 3) % 100); rs.push_back(r); } return mkRel(cs, rs); };
    for (u32 a = 0; a < 1u << n; a++) for (u32 b = self ? a : 0; b < (self ? a + 1 : 1u << n); b++) {
        Rel r1 = mk(c1, a, 1), r2 = mk(self ? c1 : c2, b, self ? 1 : 50); int f1 = (a + b) % (r1.rows.size() + 1), f2 = (a * 3 + b) % (r2.rows.size() + 1);
        freshWorld(); descr("A", r1, f1); std::string d = path[0]; descr("B", r2, f2); path.insert(path.begin(), d);
        Tab t1 = openTab(0, r1, f1), t2 = self ? t1 : openTab(1, r2, f2);
        for (int v = 0; v < (filt ? 10 : 1); v++) {
            path.resize(2); path.push_back("v" + std::to_string(v));
            u8 lo[8], hi[8]; put(lo, {k, false}, keys[n / 3]); put(hi, {k, false}, keys[2 * n / 3]);
            Query q; Node x, y, j;
            x = scan(q, t1, v == 1 || v == 3 ? lo : 0, v == 2 || v == 3 || v == 7 ? hi : 0); y = scan(q, t2, v == 4 || v == 7 ? lo : 0, v == 5 ? hi : 0);
            if (v == 6) x = sel(q, x, 1, SELECT_GT, 23); if (v == 8) { y = sel(q, y, 1, SELECT_NEQ, self ? 15 : 64); y = proj(q, y, 1); }
            j = joinN(q, x, y); if (v == 9) { j = sel(q, j, 1, SELECT_LTE, 40); j = proj(q, j, (1 << j.r.cols.size()) - 1 - 2); }
            run(q, j);
        }
        path.resize(2); if (!self) closeTab(t2); closeTab(t1);
    }
}
// every allocation of building and running a query failing, alone or with all later ones
static void abandon(Query &q) {   // what was built before the failure is closed and freed, from the outermost operators in
    oomOn = false; std::set<void *> inner; for (void *o : q.ops) { auto *p = (embedDBOperator *)o; if (p->input) inner.insert(p->input); }
    for (size_t i = q.ops.size(); i--;) { auto *p = (embedDBOperator *)q.ops[i]; if (inner.count(p) || q.joined.count(p)) continue; api("close", [&] { p->close(p); }); }
    for (void *o : q.ops) mc_free(o);
    for (auto *v : q.fns) { for (auto &f : *v) if (f.state) mc_free(f.state); delete v; } q.fns.clear();
    for (size_t i = 0; i < q.its.size(); i++) { api("embedDBCloseIterator", [&] { embedDBCloseIterator(q.its[i]); }); delete q.its[i]; }
    for (auto *e : q.vals) delete e;
    memCheck("close"); if (W->liveAllocs != q.base) vio("%d heap blocks are still allocated after an operator could not be created and the others were closed and freed", (int)W->liveAllocs - (int)q.base);
}
static void checkAll(Query &q, const Node &n, const char *when) {
    embedDBOperator *top = n.op; (void)q;
    for (size_t i = 0; i <= n.r.rows.size() + 1; i++) { int8_t rc = 99; nObs++; api("exec", [&] { rc = exec(top); }); bool want = i < n.r.rows.size(); if (!!rc != want) vio("%s: %s", when, want ? "the query ended early" : "the query went on after its end"); if (want && !rowEq((u8 *)top->recordBuffer, n.r.rows[i], n.r.cols)) vio("%s: row %zu is %s, not %s", when, i, rowStr((u8 *)top->recordBuffer, n.r.cols).c_str(), rowStr(n.r.rows[i].data(), n.r.cols).c_str()); }
}
template <class B> static void oomQuery(B build, std::function<void()> undo = [] {}) {
    for (oomSticky = 0; oomSticky < 2; oomSticky++) for (int again2 = 0; again2 < 2; again2++) for (oomAt = 0;; oomAt++) {
        size_t keep = path.size(); path.push_back("~" + std::to_string(oomAt) + (oomSticky ? "~s" : "") + (again2 ? " init again" : ""));
        Query q; Node n; n.op = nullptr; oomCnt = oomHits = 0; nStates++; nFault++; sample(); bool made = true;
        try { n = build(q); } catch (NoMem &) { made = false; }
        int hits = oomHits;
        if (!made) abandon(q);
        else {
            embedDBOperator *top = n.op; oomOn = true; api("init", [&] { top->init(top); }); oomOn = false; hits = oomHits;
            std::vector<embedDBIterator> before; for (auto *it : q.its) before.push_back(*it);
            int8_t rc = 99; size_t i = 0; oomOn = true;
            for (; i <= n.r.rows.size() + 1; i++) { rc = 99; nObs++; api("exec", [&] { rc = exec(top); }); if (!rc) break; if (i >= n.r.rows.size()) vio("the query went on after its end"); if (!rowEq((u8 *)top->recordBuffer, n.r.rows[i], n.r.cols)) vio("with an allocation failing row %zu is %s, not %s", i, rowStr((u8 *)top->recordBuffer, n.r.cols).c_str(), rowStr(n.r.rows[i].data(), n.r.cols).c_str()); }
            oomOn = false;
            if (i < n.r.rows.size() && !oomHits) vio("the query ended after %zu of %zu rows", i, n.r.rows.size());
            if (i && i < n.r.rows.size() && oomHits == hits) vio("the initialisation ran out of memory and the query returned %zu of %zu rows", i, n.r.rows.size());
            for (int z = 0; z < 2; z++) { rc = 99; api("exec", [&] { rc = exec(top); }); if (rc) vio("the query returned a row after its end"); }
            hits = oomHits;
            bool untouched = !i; for (size_t k = 0; k < q.its.size(); k++) if (memcmp(q.its[k], &before[k], sizeof before[k])) untouched = false;   // a scan goes on where its iterator stands
            if (again2 && (q.its.empty() || untouched)) { api("init", [&] { top->init(top); }); checkAll(q, n, "initialised again with enough memory"); }
            memCheck("exec"); closeQuery(q, top);
        }
        undo(); path.resize(keep);
        if (!hits) break;
    }
}
static void modeOom() {
    oomHook = oomAsk; int n = argI("n", 3); Col c{2, true}; auto V = values(c, 4);
    // schemas
    for (int sticky = 0; sticky < 2; sticky++) for (int at = 0; at < 4; at++) for (int what = 0; what < 3; what++) {
        freshWorld(); path = {"schema" + std::to_string(what) + "~" + std::to_string(at) + (sticky ? "~s" : "")}; nStates++; nFault++;
        int8_t sz[3] = {4, 2, 8}, sg[3] = {embedDB_COLUMN_UNSIGNED, embedDB_COLUMN_SIGNED, embedDB_COLUMN_SIGNED}; embedDBSchema *s = nullptr, *d = nullptr; void *b = nullptr; u32 base = W->liveAllocs;
        oomSticky = sticky; oomAt = at; oomCnt = oomHits = 0; oomOn = what == 0; api("embedDBCreateSchema", [&] { s = embedDBCreateSchema(3, sz, sg); });
        oomOn = what == 1; if (s) api("copySchema", [&] { d = copySchema(s); }); oomOn = what == 2; if (s) api("createBufferFromSchema", [&] { b = createBufferFromSchema(s); }); oomOn = false;
        void *r = what == 0 ? (void *)s : what == 1 ? (void *)d : b; if (!!r != !oomHits) vio(r ? "a schema or buffer was returned although an allocation for it failed" : "a schema or buffer could not be created");
        if (s && d && (d->numCols != 3 || memcmp(d->columnSizes, s->columnSizes, 3))) vio("the copy of a schema differs");
        if (b) mc_free(b); if (d) api("embedDBFreeSchema", [&] { embedDBFreeSchema(&d); }); if (s) api("embedDBFreeSchema", [&] { embedDBFreeSchema(&s); });
        if (W->liveAllocs != base) vio("%d heap blocks are still allocated after schemas were freed", (int)W->liveAllocs - (int)base); memCheck("schema");
    }
    for (int rows = 0; rows <= n; rows++) for (u32 part = 0; part < 1u << (rows > 1 ? rows - 1 : 0); part++) {
        std::vector<std::vector<i128>> rs, rt; int g = 7; for (int i = 0; i < rows; i++) { if (i && (part >> (i - 1) & 1)) g += 250; rs.push_back({10 + 2 * i, g, V[(i + part) % 4]}); rt.push_back({10 + 2 * i + (part >> i & 1), i}); }
        Rel a = mkRel({{4, false}, {2, false}, c}, rs), b = mkRel({{4, false}, {1, true}}, rt); std::vector<AggOut> fs = {{'c', 2}, {'s', 2}, {'m', 2}, {'M', 2}};
        for (int tab = 0; tab < 2; tab++) for (int kind = 0; kind < 18; kind++) {
            freshWorld(); u32 base = W->liveAllocs; std::string d = tab ? "T" : "M"; for (auto &r : a.rows) d += rowStr(r.data(), a.cols); d += " kind" + std::to_string(kind); path = {d};
            Tab t1, t2; if (tab) { t1 = openTab(0, a, rows / 2); t2 = openTab(1, b, rows); }
            auto in = [&](Query &q, int i) { oomOn = false; if (!tab) { Node x = mock(q, i, i % 2 ? b : a); q.base += 2; oomOn = true; return x; } oomOn = true; return scan(q, i % 2 ? t2 : t1); };
            oomQuery([&](Query &q) {
                Node x = in(q, 0), y; bool two = (kind >= 5 && kind < 10) || kind > 14; if (two) y = in(q, 1);
                if (kind == 0) x = sel(q, x, 2, SELECT_GT, 0);
                if (kind == 1) x = proj(q, x, 5);
                if (kind == 2) x = agg(q, x, 1, fs);
                if (kind == 3) x = agg(q, sel(q, x, 0, SELECT_NEQ, 12), 1, fs);
                if (kind == 4) x = proj(q, sel(q, agg(q, x, 1, fs), 1, SELECT_LTE, 2), 6);
                if (kind == 5) x = joinN(q, x, y);
                if (kind == 6) x = joinN(q, y, x);
                if (kind == 7) { Node l = sel(q, x, 1, SELECT_GT, 7); x = joinN(q, l, proj(q, y, 1)); }
                if (kind == 8) x = agg(q, joinN(q, x, y), 1, fs);
                if (kind == 9) x = sel(q, proj(q, joinN(q, x, y), 7), 1, SELECT_GTE, 7);
                if (kind == 10) x = agg(q, x, 1, {{'s', 0}, {'c', 0}}, false);
                if (kind == 11) x = proj(q, proj(q, x, 7), 3);
                if (kind == 12) x = sel(q, sel(q, x, 0, SELECT_GT, 10), 1, SELECT_GT, 6);
                fcols.clear(); if (kind == 13) { x = agg(q, x, 1, {{'a', 2}, {'A', 2}, {'m', 0}}); fcols = " aA"; }
                if (kind == 14) x = agg(q, agg(q, x, 1, fs), 1, {{'s', 1}, {'M', 4}});
                if (kind == 15) { Node l = joinN(q, x, y); x = joinN(q, l, in(q, 2)); }
                if (kind == 16) { Node z = in(q, 2); x = joinN(q, x, joinN(q, y, z)); }
                if (kind == 17) { Node l = agg(q, x, 0, {{'c', 1}}); x = joinN(q, l, agg(q, y, 0, {{'M', 1}, {'c', 0}})); }
                return x;
            }, [&] { if (!tab) for (auto &m : mocks) if (m.schema) api("embedDBFreeSchema", [&] { embedDBFreeSchema(&m.schema); m.schema = nullptr; }); });
            fcols.clear();
            if (tab) { closeTab(t2); closeTab(t1); }
            if (W->liveAllocs != base) vio("%d heap blocks are still allocated", (int)W->liveAllocs - (int)base);
        }
    }
}
// every schema of up to L columns with any size and sign from a list: accepted as given, or refused with nothing left behind
static void modeSchema() {
    int L = argI("cols", 3); std::vector<int8_t> szs = {1, 4, 127, 0, -1, -4, -127, -128}, sgs = {embedDB_COLUMN_SIGNED, embedDB_COLUMN_UNSIGNED, 2, 3, -1, 127, -128};
    for (int n = 1; n <= L; n++) { std::vector<int> ix(2 * n, 0); for (;;) {
        freshWorld(); std::vector<int8_t> sz, sg; path = {"schema"}; bool ok = true; int good[2] = {0, 0};
        for (int i = 0; i < n; i++) { int8_t z = szs[ix[2 * i]], g = sgs[ix[2 * i + 1]]; sz.push_back(z); sg.push_back(g); path.push_back(std::to_string(z) + "/" + std::to_string(g)); if (z <= 0 || (g != embedDB_COLUMN_SIGNED && g != embedDB_COLUMN_UNSIGNED)) ok = false; }
        (void)good; nStates++; nTrans++; sample(); Exact ez(n, sz.data()), eg(n, sg.data()); embedDBSchema *s = nullptr; api("embedDBCreateSchema", [&] { s = embedDBCreateSchema(n, (int8_t *)ez.p, (int8_t *)eg.p); });
        if (ok && !s) vio("the schema was refused"); if (!ok && s) vio("a schema with an impossible column size or sign was accepted");
        if (s) {
            if (s->numCols != n) vio("the schema has %d columns", s->numCols); int w = 0, off = 0;
            for (int i = 0; i < n; i++) { if (s->columnSizes[i] != (sg[i] == embedDB_COLUMN_SIGNED ? -sz[i] : sz[i])) vio("column %d has the size code %d", i, s->columnSizes[i]); w += sz[i]; }
            for (int i = 0; i < n; i++) { int o = -1; nObs++; api("getColOffsetFromSchema", [&] { o = getColOffsetFromSchema(s, i); }); if (o != off) vio("column %d is at offset %d, not %d", i, o, off); off += sz[i]; }
            int t = 0; api("getRecordSizeFromSchema", [&] { t = getRecordSizeFromSchema(s); }); if (t != w) vio("the record size is %d, not %d", t, w);
            api("embedDBFreeSchema", [&] { embedDBFreeSchema(&s); }); if (s) vio("embedDBFreeSchema left the pointer set");
        }
        if (W->liveAllocs) vio("%u heap blocks are still allocated after the schema was %s", W->liveAllocs, ok ? "freed" : "refused"); memCheck("schema");
        int i = 0; while (i < 2 * n && ++ix[i] == (int)(i % 2 ? sgs.size() : szs.size())) ix[i++] = 0;
        if (i == 2 * n) break;
    } }
}
int main(int argc, char **argv) {
    unitInit(argc, argv); PS = argI("ps", 256); if (argS("what", "sel") == "wide") ARENA = 1 << 20; u32 pages[3] = {8, 8, 8}; W = world_create(0x100000000000ull, 64, pages, PS, 2, 0);
    std::string viol, what = argS("what", "sel");
    try {
        if (what == "sel") modeSel(); else if (what == "pipe") modePipe(); else if (what == "agg") modeAgg(); else if (what == "aggpipe") modeAggPipe(); else if (what == "long") modeLong(); else if (what == "join") modeJoin(); else if (what == "wide") modeWide(); else if (what == "again") modeAgain(); else if (what == "two") modeTwo(); else if (what == "nest") modeNest(); else if (what == "oom") modeOom(); else if (what == "schema") modeSchema(); else vio("unknown mode");
    } catch (Violation &v) { viol = v.what; }
    return finish(viol);
}
