
// Bring the model in line with an operation that failed and said so.  P: before it, Q: had it succeeded.
// It may have written its page or not, and reclaimed its block or not; the put itself must not half-exist.
static void adoptFault(const Model &P, const Model &Q, const Op &o) {
    Model &m = M(); embedDBState *st = W->st;
    u32 R = st->nextDataPageId, mn = st->minDataPageId;
    if (R != P.nextPage && R != Q.nextPage) vio("after the failed operation the database continues at page %u instead of %u or %u", R, P.nextPage, Q.nextPage);
    if (mn != P.minPage && mn != Q.minPage) vio("after the failed operation the oldest page is %u instead of %u or %u", mn, P.minPage, Q.minPage);
    bool adv = R > P.nextPage;
    u32 n = P.n;
    if (Q.n > P.n) {   // the failed put: present or absent as a whole
        u8 ob[256 + 8]; u8 kk[8]; keyBytes(Q.recs[P.n].key, kk); int rc = 99; Snap s; snap_save(s);
        api("embedDBGet", [&] { rc = embedDBGet(st, kk, ob); });
        if (rc == 0) n = P.n + 1;
        snap_load(s);
    }
    Model keep = P;
    m = Q; m.dead = 0; m.open = 1; m.n = n; m.puts = n > P.n ? Q.puts : P.puts; m.nextPage = R; m.minPage = mn;
    memcpy(m.pageFirst, adv ? Q.pageFirst : keep.pageFirst, sizeof m.pageFirst);
    m.bufFirst = adv ? Q.bufFirst : P.bufFirst;
    if (m.bufFirst > n) m.bufFirst = n;
    m.avail = (i64)C.cap() + mn - R;
    m.pendShift = P.pendShift;
    if (C.rlc && adv && mn == P.minPage && Q.minPage > P.minPage) m.pendShift = 1;
    memcpy(m.cur, keep.cur, sizeof m.cur); m.str = keep.str;
    m.statsR = m.statsW = m.statsIR = m.statsIW = 0;
    if (C.var && Q.n > P.n && n == P.n) {
        // variable data of the failed put may have reached storage; those pages carry its key
        const Rec &r = Q.recs[P.n]; bool have = false;
        if (r.vlen >= 0) {
            for (u32 z = 0; z < m.orphN; z++) if (m.orphKey[z] == r.key) { have = true; if (r.vLo < m.orphLo[z]) m.orphLo[z] = r.vLo; }
            if (!have) { if (m.orphN >= 16) { fprintf(stderr, "too many orphans\n"); exit(3); } m.orphKey[m.orphN] = r.key; m.orphLo[m.orphN++] = r.vLo; }
        }
    }
}
// One operation with the i-th eligible device access failing (and all later ones of the operation if sticky).
static void faultOne(const Op &o, int i, int sticky, const Model &Q) {
    selFor(o);
    Model P = M();
    // a failing read or open while recovering cannot be told from an absent page or file, unless the page had already been read (64)
    failTypes = o.c == 'r' ? faultMask & (6 | 64 | 128) : faultMask & ~64; failDevs = faultDevs; failAt = i; failSticky = sticky; failCount = 0;
    struct R { ~R() { failAt = -1; failTypes = 0; } } r;
    apply(o);
    failAt = -1; failTypes = 0;
    nFault++;
    if (M().dead) { nFaultReported++; adoptFault(P, Q, o); }
    if (W->st) clearStats();
}
static void faultAll(const Snap &pre, const Op &o, int depth, int devs, int crashes, int faults) {
    if (o.c == 'K' || o.c == 'D' || o.c == 'A' || o.c == 'O' || o.c == 'c' || o.c == 'Q' || o.c == 'd' || o.c == 's' || o.c == 'z') return;
    snap_load(pre);
    failTypes = o.c == 'r' ? faultMask & (6 | 64 | 128) : faultMask & ~64; failDevs = faultDevs; failAt = -1; failCount = 0;
    { struct R { ~R() { failTypes = 0; } } r; apply(o); }
    int n = failCount; Model Q = M();
    for (int i = 0; i < n && !capped; i++) for (int st = 0; st <= (faultSticky && i + 1 < n ? 1 : 0); st++) {
        snap_load(pre);
        path.push_back(o.tok + "~" + std::to_string(i) + (st ? "~s" : ""));
        faultOne(o, i, st, Q); countTrans();
        explore(postL, std::min(devs, postD), crashes, faults - 1);
        path.pop_back();
    }
}
static void faultReplay(const Op &o, const std::string &spec) {
    Snap s; snap_save(s); apply(o); Model Q = M(); snap_load(s);
    faultOne(o, atoi(spec.c_str()), spec.find("~s") != std::string::npos, Q);
}
