// C05 isolation, C06 tiling, C07 restart of MLI 3.0 runtime kernel objects.
#include "k3.h"
using namespace k3;

struct Layout { std::vector<OffsetBuffer> ob; std::vector<size_t> mem; };
// Where the tile buffers are: own memories or pools with gaps.
static Layout make_layout(const Kern& k) {
    Layout L;
    bool pool = ch(2);
    uint32_t nm = pool ? 1 + ch((uint32_t)k.ops.size()) : (uint32_t)k.ops.size();
    L.mem.assign(nm, 0);
    for (size_t i = 0; i < k.ops.size(); i++) {
        const Op& o = k.ops[i];
        uint32_t m = pool ? ch(nm) : (uint32_t)i;
        size_t at = L.mem[m];
        if (pool || ch(4) == 0) at += ch(24);
        size_t al = o.esz;
        at = (at + al - 1) / al * al;
        L.ob.push_back(OffsetBuffer((uint32_t)at, m, (uint32_t)o.tbytes, (uint32_t)o.esz));
        L.mem[m] = at + o.tbytes;
    }
    for (auto& n : L.mem) if (n == 0) n = 1;
    for (auto& n : L.mem) if (n > (k3::huge() ? 300000u : 90000u)) discard("too large");
    return L;
}
struct Program {                               // what the compiler side hands over
    Kern k; Layout L; Bytes priv; uint32_t objsize = 0;
};
static Program compile(const Kern& k) {
    Program g; g.k = k; g.L = make_layout(k);
    g.k.compile(g.k, g.L.ob, g.priv, g.objsize);
    if (g.priv.size() < sizeof(M::PrivateData) || g.objsize < 16) violation("declared-size", "%s: private data %zu, object %u bytes", k.name.c_str(), g.priv.size(), g.objsize);
    return g;
}
struct Trace { Bytes out; std::vector<std::vector<View>> views; };
struct Live {
    const Program* g = nullptr;
    std::vector<Buf> mem; std::vector<uint8_t*> tb;
    Buf priv, obj;
    ExecutionInterface* e = nullptr;
    Trace t; std::vector<uint8_t> cnt;
    bool drop_priv = false;                    // the private data is gone after Create
    bool guard = true;                         // snapshot everything around every call
    const Kern& k() const { return g->k; }
};
static void place(Live& L, const Program& g, const Buf* shared_priv = nullptr) {
    L.g = &g; L.mem.clear(); L.tb.clear();
    for (size_t i = 0; i < g.L.mem.size(); i++) { L.mem.push_back(alloc(g.L.mem[i], "tile memory", -1, 8)); fill(L.mem.back(), data_seed()); }
    for (size_t i = 0; i < g.k.ops.size(); i++) L.tb.push_back(L.mem[g.L.ob[i].get_mem_idx()].p + g.L.ob[i].get_offset());
    if (shared_priv) L.priv = *shared_priv;
    else { L.priv = alloc(g.priv.size(), "private data", kEnd, 8); fill(L.priv, data_seed()); memcpy(L.priv.p, g.priv.data(), g.priv.size()); }
    L.obj = alloc(g.objsize, "runtime object", kEnd, 8); fill(L.obj, data_seed());
}
static void reset_out(Live& L) { const Op& o = L.k().out(); L.t.out.assign(o.full.size(), 0); L.cnt.assign(o.full.size() / o.esz, 0); L.t.views.clear(); }
template <class F> static void each(const Op& o, const View& v, F f) {     // full index, tile index
    uint32_t i[5] = {0, 0, 0, 0, 0};
    uint32_t n[5] = {1, 1, 1, 1, 1};
    for (int d = 0; d < o.rank; d++) { n[d] = v.sz[d]; if (!n[d]) return; }
    for (;;) {
        size_t a = 0, b = 0;
        for (int d = 0; d < o.rank; d++) { a += (size_t)(v.of[d] + i[d]) * o.st[d]; b += (size_t)((o.whole ? v.of[d] : 0) + i[d]) * o.bs(d); }
        f(a, b);
        int d = o.rank - 1;
        for (; d >= 0; d--) { if (++i[d] < n[d]) break; i[d] = 0; }
        if (d < 0) return;
    }
}
static std::string show(const Op& o, const View& v) { std::string s = "size"; for (int d = 0; d < o.rank; d++) s += " " + std::to_string(v.sz[d]); s += " offset"; for (int d = 0; d < o.rank; d++) s += " " + std::to_string(v.of[d]); return s; }
static std::vector<View> ask(Live& L, uint32_t tile) {
    std::vector<View> v(L.k().ops.size());
    for (auto& x : v) { memset(x.sz, 0x5a, sizeof x.sz); memset(x.of, 0x5a, sizeof x.of); }
    NoPreempt np;
    L.k().io(L.k(), L.e, tile, v);
    for (size_t i = 0; i < v.size(); i++) if (L.k().ops[i].role == PARAM && v[i].packed.empty()) v[i].packed = L.k().ops[i].full;
    return v;
}
static void check_views(Live& L, const std::vector<View>& v, uint32_t tile) {
    const Kern& k = L.k();
    for (size_t i = 0; i < k.ops.size(); i++) {
        const Op& o = k.ops[i];
        if (o.role == PARAM) continue;
        for (int d = 0; d < o.rank; d++) {
            if (v[i].of[d] < 0 || v[i].sz[d] == 0 || v[i].sz[d] > o.sh[d] || (uint32_t)v[i].of[d] + v[i].sz[d] > o.sh[d])
                violation(k.name + "/outside-tensor/" + o.name, "%s tile %u: %s %s is outside the full tensor (dim %d has %u)", k.name.c_str(), tile, o.name, show(o, v[i]).c_str(), d, o.sh[d]);
        }
        if (o.whole) continue;
        size_t need = span(o.rank, v[i].sz, o.own_bst ? o.bst : o.st) * o.esz;
        if (need > o.tbytes) violation(k.name + "/outside-buffer/" + o.name, "%s tile %u: %s %s needs %zu bytes, the tile buffer has %zu", k.name.c_str(), tile, o.name, show(o, v[i]).c_str(), need, o.tbytes);
    }
    if (k.grid) {
        uint32_t idx = tile;
        const Op& o = k.out(); const View& w = v[k.out_idx()];
        uint32_t skew = k.tile[5];
        for (int d = 0; d < o.rank; d++, skew = 0) {
            uint32_t n = (o.sh[d] + skew + k.tile[d] - 1) / k.tile[d], at = idx % n, p = at ? at * k.tile[d] - skew : 0, e = std::min((at + 1) * k.tile[d] - skew, o.sh[d]); idx /= n;
            if ((uint32_t)w.of[d] != p || w.sz[d] != e - p)
                violation(k.name + "/tile-order", "%s tile %u: output %s, expected offset %u size %u in dim %d", k.name.c_str(), tile, show(o, w).c_str(), p, e - p, d);
        }
    }
}
static void load(Live& L, size_t i, const View& v) {
    const Op& o = L.k().ops[i];
    if (o.role == PARAM) { memcpy(L.tb[i], v.packed.data(), v.packed.size()); return; }
    if (o.whole) { memcpy(L.tb[i], o.full.data(), o.full.size()); return; }
    each(o, v, [&](size_t a, size_t b) { memcpy(L.tb[i] + b * o.esz, o.full.data() + a * o.esz, o.esz); });
}
// Scalars and per-tensor parameters are read when the object is created.
static void load_early(Live& L) {
    const Kern& k = L.k();
    std::vector<View> v(k.ops.size());
    bool any = false;
    for (auto& o : k.ops) any |= o.early;
    if (!any) return;
    for (size_t i = 0; i < k.ops.size(); i++) {
        const Op& o = k.ops[i];
        if (!o.early) continue;
        if (o.role == PARAM) v[i].packed = o.full;
        else for (int d = 0; d < o.rank; d++) { v[i].of[d] = 0; v[i].sz[d] = o.sh[d]; }
        load(L, i, v[i]);
    }
}
static void expect_ok(mli_status s, const Kern& k, const char* what) { if (s != MLI_STATUS_OK) violation(k.name + "/status/" + what, "%s %s returned %d", k.name.c_str(), what, (int)s); }
template <class F> static void guarded(Live& L, const char* what, bool allow_out, const View* ov, F f) {
    if (!L.guard) { f(); return; }
    Mask m; m.allow(L.obj.p, L.obj.n);
    if (allow_out) { int i = L.k().out_idx(); const Op& o = L.k().ops[i]; each(o, *ov, [&](size_t, size_t b) { m.allow(L.tb[i] + b * o.esz, o.esz); }); }
    Image im = snapshot();
    f();
    std::string d = diff(im, m);
    if (!d.empty()) violation(L.k().name + "/stray-write/" + what, "%s %s changed memory that is not its object or output: %s", L.k().name.c_str(), what, d.c_str());
}
// Between compiling and running, and between incarnations, the library may have been restarted.
static void maybe_restart() { if (ch(2)) { forget(); fault("library restarted"); } }
static void create(Live& L) {
    load_early(L);
    size_t n = L.mem.size();
    Buf mb = alloc(n * 8, "memory bases", kEnd, 8);
    for (size_t i = 0; i < n; i++) mb.as<uint64_t>()[i] = (uint64_t)(uintptr_t)L.mem[i].p;
    guarded(L, "create", false, nullptr, [&] { L.e = ExecutionInterface::Create(L.obj.p, L.g->objsize, L.priv.p, (uint32_t)L.g->priv.size(), mb.as<uint64_t>(), (int)n); });
    fill(mb, data_seed());
    if (L.drop_priv) fill(L.priv, data_seed());
    if (!L.e) violation(L.k().name + "/create-null", "%s: Create returned null for a buffer of the declared size", L.k().name.c_str());
    if ((uint8_t*)L.e < L.obj.p || (uint8_t*)L.e >= L.obj.p + L.obj.n) violation(L.k().name + "/create-outside", "%s: the object lies outside the buffer it was given", L.k().name.c_str());
    reset_out(L);
}
static bool same_view(const Op& o, const View& a, const View& b) { for (int d = 0; d < o.rank; d++) if (a.sz[d] != b.sz[d] || a.of[d] != b.of[d]) return false; return true; }
static void one_tile(Live& L, uint32_t tile) {
    const Kern& k = L.k();
    context(k.name + " tile");
    std::vector<View> v = ask(L, tile);
    check_views(L, v, tile);
    if (noting()) { std::string s; for (size_t i = 0; i < k.ops.size(); i++) if (k.ops[i].role != PARAM) s += std::string(" | ") + k.ops[i].name + " " + show(k.ops[i], v[i]); note("%s tile %u%s", k.name.c_str(), tile, s.c_str()); }
    uint64_t seed = data_seed();
    int oi = k.out_idx();
    const Op& o = k.ops[oi];
    for (size_t i = 0; i < k.ops.size(); i++) { Rng r(seed + i); for (size_t b = 0; b < k.ops[i].tbytes; b++) L.tb[i][b] = (uint8_t)r.next(); }
    for (size_t i = 0; i < k.ops.size(); i++) if (k.ops[i].role != OUT) load(L, i, v[i]);
    // what the kernel may not touch: everything in its buffers but the output elements of this tile
    std::vector<Bytes> before;
    for (size_t i = 0; i < k.ops.size(); i++) before.push_back(Bytes(L.tb[i], L.tb[i] + k.ops[i].tbytes));
    int times = 1;
    for (int rep = 0; rep < times; rep++) {
        if (ch(4) == 3) { fault("Prefetch in between"); context(k.name + " prefetch"); guarded(L, "prefetch", false, nullptr, [&] { expect_ok(L.e->Prefetch(), k, "Prefetch"); }); }
        context(k.name + " issue");
        guarded(L, "issue", true, &v[oi], [&] { expect_ok(L.e->Issue(), k, "Issue"); });
        if (ch(6) == 5 && times < 3) { times++; fault("Issue repeated"); }
    }
    for (size_t i = 0; i < k.ops.size(); i++) {
        Bytes now(L.tb[i], L.tb[i] + k.ops[i].tbytes);
        Bytes was = before[i];
        if ((int)i == oi) each(o, v[oi], [&](size_t, size_t b) { memcpy(&was[b * o.esz], &now[b * o.esz], o.esz); });
        if (now != was) violation(k.name + "/stray-write/issue", "%s tile %u: Issue changed bytes of the %s buffer that it does not own", k.name.c_str(), tile, k.ops[i].name);
    }
    each(o, v[oi], [&](size_t a, size_t b) {
        memcpy(&L.t.out[a * o.esz], L.tb[oi] + b * o.esz, o.esz);
        if (L.cnt[a]++) violation(k.name + "/written-twice", "%s tile %u: output element %zu was already produced by an earlier tile", k.name.c_str(), tile, a);
    });
    for (size_t i = 0; i < v.size(); i++) v[i].packed.clear();
    if (ch(4) == 3) {
        // the buffers may be in use for something else by now, and what the object says about this tile must not have changed
        fault("tile buffers overwritten before Update");
        for (size_t i = 0; i < k.ops.size(); i++) if (!k.ops[i].early) for (size_t b = 0; b < k.ops[i].tbytes; b++) L.tb[i][b] = (uint8_t)(0x5a + b);
        std::vector<View> again = ask(L, tile);
        for (size_t i = 0; i < v.size(); i++) if (k.ops[i].role != PARAM && !same_view(k.ops[i], v[i], again[i]))
            violation(k.name + "/tile-changed", "%s: after Issue of tile %u the object reports %s %s, before it was %s", k.name.c_str(), tile, k.ops[i].name, show(k.ops[i], again[i]).c_str(), show(k.ops[i], v[i]).c_str());
    }
    L.t.views.push_back(v);
    context(k.name + " update");
    guarded(L, "update", false, nullptr, [&] { expect_ok(L.e->Update(), k, "Update"); });
}
static void finish(Live& L) {
    const Kern& k = L.k(); const Op& o = k.out();
    View all; for (int d = 0; d < o.rank; d++) { all.sz[d] = o.sh[d]; all.of[d] = 0; }
    each(o, all, [&](size_t a, size_t) { if (L.cnt[a] != 1) violation(k.name + "/not-written", "%s: output element %zu was produced by %d tiles", k.name.c_str(), a, L.cnt[a]); });
    std::vector<View> v = ask(L, 0);
    for (size_t i = 0; i < k.ops.size(); i++) if (k.ops[i].role != PARAM && !same_view(k.ops[i], v[i], L.t.views[0][i]))
        violation(k.name + "/not-rewound", "%s: after the last tile the object reports %s %s, the first tile was %s", k.name.c_str(), k.ops[i].name, show(k.ops[i], v[i]).c_str(), show(k.ops[i], L.t.views[0][i]).c_str());
}
static void run_tiles(Live& L, bool pauses) { for (uint32_t i = 0; i < L.k().tiles; i++) { one_tile(L, i); if (pauses) yield(); } finish(L); }
static void compare_out(const Kern& k, const Bytes& a, const Bytes& b, const char* key, const char* what) {
    const Op& o = k.out();
    View all; for (int d = 0; d < o.rank; d++) { all.sz[d] = o.sh[d]; all.of[d] = 0; }
    size_t n = 0;
    each(o, all, [&](size_t x, size_t) {
        if (memcmp(&a[x * o.esz], &b[x * o.esz], o.esz)) {
            int32_t p = 0, q = 0; memcpy(&p, &a[x * o.esz], o.esz); memcpy(&q, &b[x * o.esz], o.esz);
            violation(k.name + "/" + key, "%s: output element %zu (number %zu) is %d, %s gives %d", k.name.c_str(), x, n, p, what, q);
        }
        n++;
    });
}
static void compare_views(const Kern& k, const Trace& a, const Trace& b, const char* what) {
    if (a.views.size() != b.views.size()) violation(k.name + "/views", "%s: %zu tiles, %s has %zu", k.name.c_str(), a.views.size(), what, b.views.size());
    for (size_t t = 0; t < a.views.size(); t++) for (size_t i = 0; i < k.ops.size(); i++) if (k.ops[i].role != PARAM && !same_view(k.ops[i], a.views[t][i], b.views[t][i]))
        violation(k.name + "/views", "%s tile %zu: %s %s, %s has %s", k.name.c_str(), t, k.ops[i].name, show(k.ops[i], a.views[t][i]).c_str(), what, show(k.ops[i], b.views[t][i]).c_str());
}
static std::string describe(const Problem& P, const Kern& k) {
    std::string s = k.name + " tiles " + std::to_string(k.tiles) + " tile";
    for (int i = 0; i < 6; i++) s += " " + std::to_string(P.tile[i]);
    for (auto& o : P.ops) { s += std::string(" | ") + o.name; for (int d = 0; d < o.rank; d++) s += " " + std::to_string(o.sh[d]); s += " x" + std::to_string(o.esz); }
    s += " | p"; for (int i = 0; i < 11; i++) s += " " + std::to_string(P.p[i]);
    return s;
}
static Kern tiled(const Problem& P) { Kern k = P.make(P, P.tile); if (k.tiles > 200) discard("too many tiles"); note("%s", describe(P, k).c_str()); return k; }
static Kern untiled(const Problem& P) {
    uint32_t t[6]; t[5] = 0;
    bool deconv = P.name == "transpose_conv2d";
    const Op* out = nullptr; for (auto& o : P.ops) if (o.role == OUT) out = &o;
    for (int i = 0; i < 5; i++) t[i] = deconv && i < 4 ? P.ops[0].sh[i] : out->sh[i];
    Problem Q = P; Q.p[23] = 1;
    return P.make(Q, t);
}
static void out_hash(const Trace& t) { uint64_t h = 1469598103934665603ull; for (auto b : t.out) h = (h ^ b) * 1099511628211ull; mix(h); mix(t.views.size()); }

SIM_SCENARIO(C06, tiling) {
    if (ch(50) == 49) huge_axis();
    Problem P = gen_problem();
    context(P.name + " compile");
    Kern kt = tiled(P), ku = untiled(P);
    stack_garbage(data_seed());
    Live U, T;
    Program gu, gt;
    run_solo([&] {
        gu = compile(ku);
        if (gu.k.tiles != 1) violation(P.name + "/untiled-count", "%s: a tile as large as the output gives %u tiles", P.name.c_str(), gu.k.tiles);
        forget();
        place(U, gu); create(U); run_tiles(U, false);
        maybe_restart();
        context(P.name + " compile");
        gt = compile(kt);
        maybe_restart();
        place(T, gt); create(T); run_tiles(T, false);
        compare_out(kt, T.t.out, U.t.out, "tiled-differs", "the untiled run");
        if (ch(3) == 2) {                        // the object is back at its first tile
            probe("second pass");
            Trace first = T.t; reset_out(T); run_tiles(T, false);
            compare_out(kt, T.t.out, first.out, "second-pass", "the first pass"); compare_views(kt, T.t, first, "the first pass");
        }
    });
    if (kt.tiles > 1) { nontrivial(); probe(("tiled " + P.name).c_str()); }
    out_hash(T.t);
}

SIM_SCENARIO(C05, interleaved) {
    int n = range(2, 4);
    std::vector<Program> progs((size_t)n);
    std::vector<Live> alone((size_t)n), live((size_t)n);
    std::vector<int> same((size_t)n, -1), kinds((size_t)n, -1);
    std::vector<uint64_t> len((size_t)n, 0);
    stack_garbage(data_seed());
    run_solo([&] {
        for (int i = 0; i < n; i++) {
            if (i && ch(3) == 0) { same[i] = (int)ch((uint32_t)i); progs[i] = progs[same[i]]; kinds[i] = kinds[same[i]]; }
            else {                               // kinds may repeat with other shapes and parameters
                kinds[i] = i && ch(3) == 0 ? kinds[ch((uint32_t)i)] : pick_kind();
                Problem P = gen_problem(kinds[i]); Kern k = tiled(P); if (k.tiles > 40) discard("too many tiles"); context(P.name + " compile"); progs[i] = compile(k); }
        }
        for (int i = 0; i < n; i++) { place(alone[i], progs[i]); alone[i].guard = false; forget(); uint64_t at = steps(); create(alone[i]); run_tiles(alone[i], false); len[i] = steps() - at; }
    });
    for (int i = 0; i < n; i++) {                // some objects are made from the same private data in the same place
        place(live[i], progs[i], same[i] >= 0 && ch(2) ? &live[same[i]].priv : nullptr);
        live[i].guard = false;
    }
    Mask m; for (auto& L : live) { m.allow(L.obj.p, L.obj.n); for (size_t i = 0; i < L.tb.size(); i++) m.allow(L.tb[i], L.g->k.ops[i].tbytes); }
    Image im = snapshot();
    maybe_restart();
    set_preempt_density(range(1, 3));
    int early = (int)ch(2);                      // objects created before any of them runs, or each by its task
    for (int i = 0; i < n; i++) if (early && ch(2)) { Live& L = live[i]; run_solo([&L] { create(L); }); im = snapshot(); }
    std::vector<int> at((size_t)n, 0);
    bool overlap = false;
    for (int i = 0; i < n; i++) {
        int f = spawn([&, i] {
            Live& L = live[i];
            for (int j = 0; j < n; j++) if (j != i && at[j] == 1) overlap = true;
            at[i] = 1;
            preemption(true);
            if (!L.e) create(L);
            run_tiles(L, true);
            preemption(false);
            at[i] = 2;
            note("%s done", L.k().name.c_str());
        }, progs[i].k.name.c_str());
        if (ch(2)) set_length_hint(f, len[i] / progs[i].k.tiles);
    }
    run_all();
    { std::string d = diff(im, m); if (!d.empty()) violation("stray-write", "memory outside the objects and tile buffers changed: %s", d.c_str()); }
    for (int i = 0; i < n; i++) {
        if (memcmp(live[i].priv.p, progs[i].priv.data(), progs[i].priv.size())) violation(progs[i].k.name + "/private-data", "%s: the private data was changed", progs[i].k.name.c_str());
        compare_out(progs[i].k, live[i].t.out, alone[i].t.out, "interleaved-differs", "running alone");
        compare_views(progs[i].k, live[i].t, alone[i].t, "running alone");
        out_hash(live[i].t);
    }
    if (overlap) nontrivial();
}

// An object in the memory where another one lived, with its buffers and private data where that one's were.
static void in_reused_memory(bool same_kind) {
    rewind_arena(true);
    forget();
    int kind = pick_kind();
    stack_garbage(data_seed());
    Live X, E; Program g;
    run_solo([&] {
        int before = range(1, 3);
        for (int i = 0; i < before; i++) {
            Problem Q = gen_problem(same_kind || ch(2) ? kind : pick_kind()); Kern q = tiled(Q);
            context(Q.name + " compile");
            Program h = compile(q);
            Live H; H.guard = false; place(H, h); create(H);
            uint32_t upto = ch(q.tiles + 1);
            if (upto == q.tiles) run_tiles(H, false); else for (uint32_t t = 0; t < upto; t++) one_tile(H, t);
            fault("object lost, another one in its memory");
            rewind_arena(true);
        }
        Problem P = gen_problem(kind); Kern k = tiled(P);
        context(P.name + " compile");
        g = compile(k);
        place(X, g); create(X); run_tiles(X, false);
        forget(); fault("library restarted");
        place(E, g); create(E); run_tiles(E, false);
    });
    compare_out(g.k, X.t.out, E.t.out, "reused-memory-differs", "a fresh start in fresh memory"); compare_views(g.k, X.t, E.t, "a fresh start in fresh memory");
    out_hash(X.t);
    nontrivial();
}
SIM_SCENARIO(C05, reused_memory) { in_reused_memory(ch(2)); }
SIM_SCENARIO(C07, reused_memory) { in_reused_memory(ch(2)); }

SIM_SCENARIO(C07, restart) {
    Problem P = gen_problem();
    context(P.name + " compile");
    Kern k = tiled(P);
    stack_garbage(data_seed());
    Live ref, L;
    Program g;
    run_solo([&] { g = compile(k); maybe_restart(); place(ref, g); create(ref); run_tiles(ref, false); });
    // incarnations that are lost at some tile
    int lost = (int)ch(3);
    Trace got;
    run_solo([&] {
        for (int i = 0; i < lost; i++) {
            L.drop_priv = false;
            maybe_restart();
            place(L, g); create(L);
            uint32_t upto = ch(k.tiles + 1);
            for (uint32_t t = 0; t < upto; t++) one_tile(L, t);
            fault("object lost between calls");
            nontrivial();
            for (auto& b : L.mem) fill(b, data_seed());
            fill(L.obj, data_seed());
            L.e = nullptr;
            maybe_restart();
            if (ch(2)) {                         // restart in the same place
                if (ch(2)) { L.drop_priv = true; fault("private data gone after Create"); }
                load_early(L); create(L); run_tiles(L, false);
                compare_out(k, L.t.out, ref.t.out, "restart-differs", "the first incarnation"); compare_views(k, L.t, ref.t, "the first incarnation");
            }
        }
    });
    // incarnations killed inside a call, restarted from the private data in other memory
    int kills = (int)ch(4);
    set_kills(kills); set_preempt_density(range(1, 3));
    int started = 0;
    Live last;
    for (int other = 0; other < 2; other++) spawn([&, other] {
        if (other) { for (int i = 0; i < 3; i++) yield(); return; }
        started++;
        if (started > 1) { fault("killed inside a call"); nontrivial(); }
        maybe_restart();
        Live X; X.guard = false;
        if (started > 1 && last.g && ch(2)) { for (auto& b : last.mem) fill(b, data_seed()); fill(last.obj, data_seed()); }
        place(X, g); last = X;
        if (ch(3) == 2) { X.drop_priv = true; fault("private data gone after Create"); }
        preemption(true);
        create(X); run_tiles(X, true);
        preemption(false);
        got = X.t;
    }, other ? "other" : k.name.c_str());
    run_all();
    set_kills(0);
    compare_out(k, got.out, ref.t.out, "restart-differs", "the first incarnation"); compare_views(k, got, ref.t, "the first incarnation");
    out_hash(got);
    // refused creations
    int refuse = (int)ch(3);
    if (refuse) run_solo([&] {
        Live X; place(X, g);
        load_early(X);
        std::vector<uint64_t> mb; for (auto& b : X.mem) mb.push_back((uint64_t)(uintptr_t)b.p);
        uint32_t size = g.objsize;
        bool dbg = !strcmp(config_name(), "dbg");
        if (refuse == 1 || dbg) {
            size = ch(3) ? g.objsize - 1 - ch(16) : ch(g.objsize);
            Buf small = alloc(std::max<uint32_t>(size, 1), "small object buffer", kEnd, 8); fill(small, data_seed()); X.obj = small;
            fault("object buffer too small");
        } else {
            M::PrivateData pd; memcpy((void*)&pd, X.priv.p, sizeof pd);
            static const uint32_t bad[] = {0, 1000, 0xffffffffu, 64};
            uint32_t id = bad[ch(4)]; memcpy((void*)&pd.kernel_id, &id, sizeof pd.kernel_id); memcpy(X.priv.p, (void*)&pd, sizeof pd);
            fault("private data of unknown kind");
        }
        context(k.name + " refused create");
        Image im = snapshot();
        auto* e = ExecutionInterface::Create(X.obj.p, size, X.priv.p, (uint32_t)g.priv.size(), mb.data(), (int)mb.size());
        std::string d = diff(im);
        if (e) violation(k.name + "/not-refused", "%s: Create accepted %s", k.name.c_str(), refuse == 1 || dbg ? "a buffer smaller than the declared object size" : "private data of an unknown kind");
        if (!d.empty()) violation(k.name + "/refused-wrote", "%s: a refused Create changed memory: %s", k.name.c_str(), d.c_str());
        nontrivial();
    });
}
