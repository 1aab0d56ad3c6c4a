// Data movement: DMA channel pool (C01), asynchronous protocol (C02), data (C03), synchronous and failed moves (C04).
#include "tensors.h"
#include "mli_mov_api.h"
#include <map>
using namespace sim;

namespace {
bool checked_build() { std::string c = config_name(); return c == "rc"; }

// ======================================================================= one data movement
struct Move {
    Ten src, dst;
    mli_mov_cfg_t* cfg = nullptr;
    std::string name;
    // expectation, written independently of the library
    uint32_t rank = 0, wsize[4], dshape[4];
    int32_t dstride[4];
    std::vector<std::pair<uint8_t*, std::vector<uint8_t>>> writes;      // destination bytes
    bool per_axis = false, own_params = false;
    int qdim = -1;
};

mli_element_type pick_type() {
    static const mli_element_type k[] = {MLI_EL_SA_8, MLI_EL_FX_16, MLI_EL_SA_32, MLI_EL_FX_8};
    return k[ch(4)];     // FP_32 exists for conversion only
}

void put_params(const Ten& T, const char* name) {
    (void)name;
    switch (T.t->el_type) {
    case MLI_EL_FX_8: case MLI_EL_FX_16: T.t->el_params.fx.frac_bits = (int8_t)ch(8); break;
    case MLI_EL_SA_8: case MLI_EL_SA_32: set_scalar_sa(T.t, (int16_t)range(-128, 127), (int16_t)range(1, 300), (int8_t)ch(12)); break;
    default: break;
    }
}

Ten make_src(int rank, const uint32_t* shape, mli_element_type ty, bool allow_axis, const char* nm) {
    Ten T;
    T.t = boxed<mli_tensor>((std::string(nm) + " descriptor").c_str());
    T.t->rank = rank; T.t->el_type = ty;
    for (int i = 0; i < rank; i++) T.t->shape[i] = shape[i];
    make_strides(rank, T.t->shape, T.t->mem_stride, flip(), flip());
    size_t n = span_elems(rank, T.t->shape, T.t->mem_stride) * el_size(ty);
    T.data = alloc(n, (std::string(nm) + " data").c_str(), -1, 4);
    fill(T.data, data_seed());
    T.t->data.mem.pi8 = (int8_t*)T.data.p; T.t->data.capacity = (uint32_t)n;
    put_params(T, nm);
    if (allow_axis && (ty == MLI_EL_SA_8 || ty == MLI_EL_SA_32) && flip()) {
        int d = (int)ch(rank);
        set_axis_sa(T, d, (int)shape[d], nm);
        Rng r(data_seed());
        for (uint32_t i = 0; i < shape[d]; i++) {
            ((int16_t*)T.scale.p)[i] = (int16_t)r.range(1, 30000); ((int16_t*)T.zp.p)[i] = (int16_t)r.range(-128, 127); T.frac.p[i] = (uint8_t)r.range(0, 20);
        }
    }
    return T;
}

struct Want {            // transformation in plain terms, per dimension of the source
    uint32_t off[4] = {0, 0, 0, 0}, size[4] = {0, 0, 0, 0}, step[4] = {1, 1, 1, 1}, pre[4] = {0, 0, 0, 0}, post[4] = {0, 0, 0, 0};
    uint32_t doff[4] = {0, 0, 0, 0}; int32_t dstr[4] = {0, 0, 0, 0};
    uint8_t perm[4] = {0, 1, 2, 3};
};

// Fills the configuration through one of the library's helper functions when possible, or directly.
void put_cfg(mli_mov_cfg_t* c, const Want& w, int rank, int helper) {
    int off[4], size[4], step[4], doff[4], dstr[4]; uint8_t perm[4];
    for (int i = 0; i < 4; i++) { off[i] = w.off[i]; size[i] = w.size[i]; step[i] = w.step[i]; doff[i] = w.doff[i]; dstr[i] = w.dstr[i]; perm[i] = w.perm[i]; }
    context("configuration helper");
    memset(c, 0x5C, sizeof *c);                            // a configuration that was used for something else before
    switch (helper) {
    case 1: mli_mov_cfg_for_copy(c); break;
    case 2: mli_mov_cfg_for_slice(c, off, size, dstr); break;
    case 3: mli_mov_cfg_for_concat(c, doff, dstr); break;
    case 4: mli_mov_cfg_for_subsample(c, step, dstr); break;
    case 5: mli_mov_cfg_for_permute(c, perm); break;
    case 6: mli_mov_cfg_for_padding2d_chw(c, w.pre[2], w.post[2], w.pre[1], w.post[1], dstr); break;
    case 7: mli_mov_cfg_for_padding2d_hwc(c, w.pre[1], w.post[1], w.pre[0], w.post[0], dstr); break;
    case 8: mli_mov_cfg_all(c, off, size, step, doff, dstr, perm, w.pre[1], w.post[1], w.pre[0], w.post[0]); break;
    default:
        memset(c, 0xA5, sizeof *c);                        // entries beyond the rank are "don't care"
        for (int i = 0; i < (helper == 0 ? rank : 4); i++) {
            c->offset[i] = w.off[i]; c->size[i] = w.size[i]; c->sub_sample_step[i] = w.step[i]; c->dst_offset[i] = w.doff[i];
            c->dst_mem_stride[i] = w.dstr[i]; c->perm_dim[i] = w.perm[i]; c->padding_pre[i] = w.pre[i]; c->padding_post[i] = w.post[i];
        }
    }
}

// Computes what the move has to do. False if the destination would be inconsistent.
void expect(Move& m, const Want& w, const int32_t* dst_own_stride) {
    const mli_tensor* s = m.src.t;
    int rank = (int)s->rank;
    m.rank = rank;
    uint32_t n[4] = {1, 1, 1, 1};                         // elements after crop and subsampling, per source dimension
    for (int i = 0; i < rank; i++) {
        uint32_t padded = s->shape[i] + w.pre[i] + w.post[i];
        uint32_t crop = w.size[i] ? w.size[i] : padded - w.off[i];
        n[i] = (crop + w.step[i] - 1) / w.step[i];
    }
    for (int d = 0; d < rank; d++) { m.wsize[d] = n[w.perm[d]]; m.dshape[d] = m.wsize[d] + w.doff[d]; }
    for (int d = rank - 1; d >= 0; d--) {
        if (w.dstr[d]) m.dstride[d] = w.dstr[d];
        else if (dst_own_stride[d]) m.dstride[d] = dst_own_stride[d];
        else m.dstride[d] = d == rank - 1 ? 1 : m.dstride[d + 1] * (int32_t)m.dshape[d + 1];
    }
    if (m.per_axis) for (int d = 0; d < rank; d++) if (w.perm[d] == s->el_params.sa.dim) m.qdim = d;
}

void expect_writes(Move& m, const Want& w) {
    const mli_tensor* s = m.src.t;
    int rank = (int)s->rank, es = el_size(s->el_type);
    m.writes.clear();
    for_each_elem(rank, m.wsize, [&](const uint32_t* c) {
        bool pad = false; size_t so = 0, d_o = 0;
        for (int d = 0; d < rank; d++) {
            int i = w.perm[d];
            int64_t p = (int64_t)w.off[i] + (int64_t)c[d] * w.step[i] - (int64_t)w.pre[i];
            if (p < 0 || p >= (int64_t)s->shape[i]) pad = true; else so += (size_t)p * s->mem_stride[i];
            d_o += (size_t)(c[d] + w.doff[d]) * m.dstride[d];
        }
        std::vector<uint8_t> v(es, 0);
        if (!pad) memcpy(v.data(), m.src.data.p + so * es, es);
        m.writes.emplace_back((uint8_t*)m.dst.t->data.mem.pi8 + d_o * es, v);
    });
    if (m.own_params) {
        int i = w.perm[m.qdim];
        for (uint32_t k = 0; k < m.wsize[m.qdim]; k++) {
            int64_t p = (int64_t)w.off[i] + (int64_t)k * w.step[i] - (int64_t)w.pre[i];
            int16_t sc = 1, zp = 0; int8_t fr = 0;
            if (p >= 0 && p < (int64_t)s->shape[i]) { sc = ((int16_t*)m.src.scale.p)[p]; zp = ((int16_t*)m.src.zp.p)[p]; fr = (int8_t)m.src.frac.p[p]; }
            uint32_t o = k + w.doff[m.qdim];
            auto add = [&](uint8_t* at, const void* v, size_t n) { m.writes.emplace_back(at, std::vector<uint8_t>((const uint8_t*)v, (const uint8_t*)v + n)); };
            add(m.dst.scale.p + 2 * o, &sc, 2); add(m.dst.zp.p + 2 * o, &zp, 2); add(m.dst.frac.p + o, &fr, 1);
        }
    }
}

// A random valid move with its own buffers.
Move make_move(const char* nm, int max_elems = 400) {
    Move m; m.name = nm;
    int rank = range(1, 4);
    uint32_t shape[4] = {1, 1, 1, 1};
    for (int i = 0; i < rank; i++) shape[i] = longer(1 + ch(rank == 1 ? 40 : rank == 2 ? 12 : 6), rank == 1);
    mli_element_type ty = pick_type();
    m.src = make_src(rank, shape, ty, true, (m.name + ".src").c_str());
    m.per_axis = m.src.scale.slot >= 0;
    Want w;
    int helper = (int)ch(10);                 // 0 and 9: direct; 1..8 library helper
    bool f_crop = helper == 2, f_sub = helper == 4, f_pad = helper == 6 || helper == 7, f_perm = helper == 5, f_doff = helper == 3;
    if (helper == 0 || helper == 9 || helper == 8) { f_crop = chance(1, 2); f_sub = chance(1, 3); f_pad = chance(1, 3); f_perm = chance(1, 2); f_doff = chance(1, 2); }
    if (helper == 6 && rank < 3) { helper = 9; }
    if ((helper == 7 || helper == 8) && rank < 2) { helper = 9; }
    if (f_pad) for (int i = 0; i < rank; i++) {
        if (helper == 6 && i != 1 && i != 2) continue;
        if ((helper == 7 || helper == 8) && i > 1) continue;
        w.pre[i] = std::min(longer(ch(3)), 255u); w.post[i] = std::min(longer(ch(3)), 255u);
    }
    if (f_crop) for (int i = 0; i < rank; i++) {
        uint32_t padded = shape[i] + w.pre[i] + w.post[i];
        w.off[i] = ch(std::min(shape[i], padded));
        if (flip()) w.size[i] = 1 + ch(padded - w.off[i]);
    }
    if (f_sub) for (int i = 0; i < rank; i++) w.step[i] = longer(1 + ch(4));
    if (f_perm) for (int i = 0; i < rank; i++) std::swap(w.perm[i], w.perm[i + ch(rank - i)]);
    if (f_doff) for (int i = 0; i < rank; i++) w.doff[i] = longer(ch(4));
    if (f_crop && f_doff && chance(1, 3)) for (int i = 0; i < rank; i++) { w.doff[i] = std::min(w.off[i], 3u); }   // shift in place
    // destination descriptor
    Ten& D = m.dst;
    D.t = boxed<mli_tensor>((m.name + ".dst descriptor").c_str());
    Buf db; db.slot = -1;
    int32_t own[4] = {0, 0, 0, 0};
    memset(m.dstride, 0, sizeof m.dstride);
    expect(m, w, own);
    int smode = (int)ch(4);                   // strides: computed / from configuration / the destination's own / mixed
    bool cfg_has_strides = helper == 0 || helper == 9 || helper == 8 || helper == 2 || helper == 3 || helper == 4 || helper == 6 || helper == 7;
    if (smode && !(smode == 1 && !cfg_has_strides)) {
        int32_t st[4];
        make_strides(rank, m.dshape, st, true, flip());
        for (int i = 0; i < rank; i++) {
            bool in_cfg = smode == 1 || (smode == 3 && flip());
            if (in_cfg && cfg_has_strides) { w.dstr[i] = st[i]; if (smode == 3 && flip()) own[i] = st[i] + 7; }
            else own[i] = st[i];
        }
    }
    expect(m, w, own);
    m.cfg = boxed<mli_mov_cfg_t>((m.name + ".cfg").c_str());
    // entries the helper functions set for all MLI_MAX_RANK dimensions must be sane beyond the rank, too
    put_cfg(m.cfg, w, rank, helper);
    D.t->rank = ch(5); D.t->el_type = MLI_EL_FX_8;         // "other fields are filled by the function"
    for (int i = 0; i < 4; i++) { D.t->shape[i] = ch(100); D.t->mem_stride[i] = i < rank ? own[i] : (int32_t)ch(3); }
    size_t n = span_elems(rank, m.dshape, m.dstride) * el_size(ty);
    D.data = alloc(n, (m.name + ".dst data").c_str(), -1, 4);
    fill(D.data, data_seed());
    D.t->data.mem.pi8 = (int8_t*)D.data.p; D.t->data.capacity = (uint32_t)n;
    memset(&D.t->el_params, 0, sizeof D.t->el_params);
    if (m.per_axis) {
        int i = m.src.t->el_params.sa.dim;
        bool touched = w.off[i] || w.pre[i] || w.post[i] || w.step[i] != 1 || w.doff[m.qdim] || (w.size[i] && w.size[i] != shape[i]);
        int how = touched ? 2 : (int)ch(3);
        if (how == 1) { D.t->el_params = m.src.t->el_params; }
        if (how == 2) {
            m.own_params = true;
            set_axis_sa(D, 0, (int)m.dshape[m.qdim], (m.name + ".dst").c_str());
            fill(D.scale, data_seed()); fill(D.zp, data_seed()); fill(D.frac, data_seed());
            for (uint32_t k = 0; k < m.dshape[m.qdim]; k++) ((int16_t*)D.scale.p)[k] = (int16_t)(1 + (((uint16_t*)D.scale.p)[k] & 0x3fff));
        }
    }
    expect_writes(m, w);
    if (noting()) {
        std::string s;
        for (int i = 0; i < rank; i++) { char t[160]; snprintf(t, sizeof t, " dim%d: shape %u stride %d pad %u+%u crop %u+%u step %u perm %u dstoff %u dststride %d;", i, shape[i], m.src.t->mem_stride[i], w.pre[i], w.post[i], w.off[i], w.size[i], w.step[i], w.perm[i], w.doff[i], m.dstride[i]); s += t; }
        note("%s: %s rank %d helper %d%s%s", nm, el_name(ty), rank, helper, m.per_axis ? " per-axis" : "", s.c_str());
    }
    (void)max_elems;
    return m;
}

void check_params(const Move& m) {
    const mli_tensor *s = m.src.t, *d = m.dst.t;
    auto bad = [&](const char* what) { violation("dst-descriptor", "%s: %s of the destination tensor is wrong after the move", m.name.c_str(), what); };
    if (d->rank != m.rank) bad("rank");
    if (d->el_type != s->el_type) bad("element type");
    for (uint32_t i = 0; i < m.rank; i++) {
        if (d->shape[i] != m.dshape[i]) bad("shape");
        if (d->mem_stride[i] != m.dstride[i]) bad("mem_stride");
    }
    if (d->data.mem.pi8 != (int8_t*)m.dst.t->data.mem.pi8) bad("data pointer");
    if (s->el_type == MLI_EL_FX_8 || s->el_type == MLI_EL_FX_16) { if (d->el_params.fx.frac_bits != s->el_params.fx.frac_bits) bad("frac_bits"); }
    else if (s->el_type == MLI_EL_SA_8 || s->el_type == MLI_EL_SA_32) {
        auto &a = s->el_params.sa, &b = d->el_params.sa;
        if (!m.per_axis) {
            if (b.dim != a.dim || a.zero_point.mem.i16 != b.zero_point.mem.i16 || a.scale.mem.i16 != b.scale.mem.i16 || a.scale_frac_bits.mem.i8 != b.scale_frac_bits.mem.i8) bad("quantisation parameters");
        } else {
            if (b.dim != m.qdim) bad("quantisation axis");
            if (m.own_params) {
                if (b.scale.mem.pi16 != (int16_t*)m.dst.scale.p || b.zero_point.mem.pi16 != (int16_t*)m.dst.zp.p || b.scale_frac_bits.mem.pi8 != (int8_t*)m.dst.frac.p) bad("quantisation parameter pointers");
            } else if (b.scale.mem.pi16 != a.scale.mem.pi16 || b.zero_point.mem.pi16 != a.zero_point.mem.pi16 || b.scale_frac_bits.mem.pi8 != a.scale_frac_bits.mem.pi8 ||
                       b.scale.capacity != a.scale.capacity || b.zero_point.capacity != a.zero_point.capacity || b.scale_frac_bits.capacity != a.scale_frac_bits.capacity) bad("quantisation parameter pointers");
        }
    }
}
bool data_in_place(const Move& m) {
    for (auto& w : m.writes) if (memcmp(w.first, w.second.data(), w.second.size())) return false;
    return true;
}
void poke_move(Image& im, const Move& m) { for (auto& w : m.writes) poke(im, w.first, w.second.data(), w.second.size()); }
void check_data(const Move& m, const char* when) {
    for (size_t i = 0; i < m.writes.size(); i++) {
        auto& w = m.writes[i];
        if (memcmp(w.first, w.second.data(), w.second.size()))
            violation("wrong-data", "%s: destination element %zu of %zu is 0x%02x.. instead of 0x%02x.. %s", m.name.c_str(), i, m.writes.size(), w.first[0], w.second[0], when);
    }
}
void check_ok(mli_status st, const char* what, const char* who) {
    if (st != MLI_STATUS_OK) violation(std::string("status-") + what, "%s: %s returned status %d for a valid request", who, what, (int)st);
}

// ======================================================================= channel pool model
struct Pool {
    int base = 0, size = 0;
    int owner[16];
    Pool() { for (int& o : owner) o = -1; }
    bool has_block(int k) const {
        for (int i = base; i + k <= base + size; i++) { bool f = true; for (int j = 0; j < k; j++) f &= owner[i + j] < 0; if (f) return true; }
        return false;
    }
    int free_count() const { int n = 0; for (int i = base; i < base + size; i++) n += owner[i] < 0; return n; }
};
struct World {
    Pool pool;
    struct H { mli_mov_handle_t* h; bool live = false; int id; int base = 0, n = 0; };
    std::vector<H> hs;
} W;

void configure(int off, int n) {
    context("mli_mov_set_num_dma_ch");
    note("set_num_dma_ch(%d, %d)", off, n);
    check_ok(mli_mov_set_num_dma_ch(off, n), "set_num_dma_ch", "pool");
    W.pool = Pool(); W.pool.base = off; W.pool.size = n;
    mix(off * 31 + n);
}
// Tries to acquire; checks the outcome against the model. Returns true if the handle is live now.
// A handle which is not live holds whatever the caller's memory held before.
bool acquire(int k, mli_mov_handle_t* h, int id) {
    if (flip()) { Rng r(data_seed()); for (size_t i = 0; i < sizeof *h; i++) ((uint8_t*)h)[i] = (uint8_t)r.next(); probe("handle memory with old content"); }
    mli_mov_handle_t before; memcpy(&before, h, sizeof before);
    bool possible = W.pool.has_block(k);
    context("mli_mov_acquire_handle");
    mli_status st = mli_mov_acquire_handle(k, h);
    note("acquire(%d) for client %d -> status %d, channels %d+%d", k, id, (int)st, h->dma_ch, h->num_ch);
    mix(((uint64_t)st << 8) ^ k);
    if (st != MLI_STATUS_OK) {
        if (possible) violation("acquire-refused", "acquire(%d) failed with status %d although a free block exists (pool %d+%d, %d free)", k, (int)st, W.pool.base, W.pool.size, W.pool.free_count());
        if (memcmp(&before, h, sizeof before)) violation("acquire-failed-changed-handle", "failed acquire(%d) changed the handle", k);
        probe("acquire_refused");
        return false;
    }
    if (h->num_ch != k) violation("acquire-count", "acquire(%d) gave a handle of %d channels", k, h->num_ch);
    if (h->dma_ch < W.pool.base || h->dma_ch + k > W.pool.base + W.pool.size) violation("acquire-outside-pool", "acquire(%d) gave channels %d..%d, pool is %d..%d", k, h->dma_ch, h->dma_ch + k - 1, W.pool.base, W.pool.base + W.pool.size - 1);
    for (int j = 0; j < k; j++) {
        if (W.pool.owner[h->dma_ch + j] >= 0) violation("acquire-shared-channel", "acquire(%d) gave channel %d which client %d holds", k, h->dma_ch + j, W.pool.owner[h->dma_ch + j]);
        W.pool.owner[h->dma_ch + j] = id;
    }
    if (!possible) violation("acquire-impossible", "acquire(%d) succeeded although no free block of that size exists", k);
    probe("acquire_ok");
    return true;
}
void release(mli_mov_handle_t* h, int id, int base, int n) {
    context("mli_mov_release_handle");
    note("release of channels %d+%d by client %d", base, n, id);
    mli_status st = mli_mov_release_handle(h);
    check_ok(st, "release_handle", "client");
    for (int j = 0; j < n; j++) W.pool.owner[base + j] = -1;
    mix(7);
}
// Drains the pool one channel at a time: exactly the free channels must come out, each once.
void drain() {
    int expect_n = W.pool.free_count(), got = 0;
    std::vector<mli_mov_handle_t> hs(20);
    note("drain: %d channels should be free", expect_n);
    for (int i = 0; i < 18; i++) {
        memset(&hs[i], 0, sizeof hs[i]);
        if (!acquire(1, &hs[i], 1000 + i)) break;
        got++;
    }
    if (got != expect_n) violation("channel-lost", "%d single channels could be acquired, %d should be free", got, expect_n);
    for (int i = 0; i < got; i++) release(&hs[i], 1000 + i, hs[i].dma_ch, 1);
}

Move g_moves[16];
}  // namespace

// ======================================================================= C01
SIM_SCENARIO(C01, pool_history) {
    context("setup");
    set_preempt_density((int)ch(3));
    std::vector<Move> mv;
    int nclients = range(1, 5);
    for (int i = 0; i < nclients; i++) if (chance(1, 2)) mv.push_back(make_move(("move" + std::to_string(i)).c_str()));
    { int n = (int)ch(17); int off = (int)ch(16 - n + 1); configure(off, n); }
    int live = 0, rounds = range(1, 3);
    int longer_by = chance(1, 40) ? range(50, 500) : 0;
    if (longer_by) probe("long history");
    struct Mine { mli_mov_handle_t* h; int base, n; bool prepared = false; };
    std::vector<std::pair<int, Mine>> orphans;      // handles of clients that died; whoever finds one releases it
    for (int r = 0; r < rounds; r++) {
        for (int c = 0; c < nclients; c++) spawn([&, c] {
            std::vector<Mine> mine;
            std::vector<mli_mov_handle_t*> spare;
            int ops = range(2, 14) + longer_by;
            for (int o = 0; o < ops; o++) {
                { NoPreempt np;
                  if (mine.empty() || chance(3, 5)) {
                    mli_mov_handle_t* h = spare.empty() ? (mli_mov_handle_t*)calloc(1, sizeof *h) : spare.back();
                    if (!spare.empty()) spare.pop_back();
                    int k = chance(1, 2) ? 1 : range(1, 6);
                    if (chance(1, 30)) k = range(7, 18);
                    if (acquire(k, h, c)) { mine.push_back({h, h->dma_ch, k}); live++; if (W.pool.free_count() == 0) probe("pool_exhausted"); if (live > 1) { nontrivial(); probe("several_live_handles"); } }
                    else {
                        fault("acquire refused");
                        if (h->num_ch != 0) memset(h, 0, sizeof *h);
                        if (chance(1, 3)) { context("release after failed acquire"); mli_mov_release_handle(h); }
                        spare.push_back(h);
                    }
                  } else if (!spare.empty() && chance(1, 4)) {
                    // a handle that was released already (or never acquired) is released once more: it owns nothing
                    mli_mov_handle_t* h = spare[ch((uint32_t)spare.size())];
                    context("release of a handle that owns no channel");
                    note("client %d: releases a handle that owns no channel", c);
                    check_ok(mli_mov_release_handle(h), "release_handle", "client");
                    fault("handle released twice");
                    probe("released_again"); if (live) probe("released_again_while_others_hold");
                  } else if (!orphans.empty() && chance(1, 2)) {
                    size_t i = ch((uint32_t)orphans.size());
                    Mine m = orphans[i].second; int owner = orphans[i].first;
                    orphans.erase(orphans.begin() + i);
                    release(m.h, owner, m.base, m.n); live--;
                    probe("handle of a dead client released by another");
                    spare.push_back(m.h);
                  } else if (mine.size() && chance(1, 12)) {
                    fault("client dies holding handles");
                    for (auto& m : mine) orphans.push_back({c, m});
                    return;
                  } else if (!mv.empty() && mine.size() && chance(1, 4)) {
                    // a handle is released in whatever phase its transfer is
                    Mine& w = mine[ch((uint32_t)mine.size())];
                    Move& m = mv[ch((uint32_t)mv.size())];
                    if (!w.prepared) {
                        context("mli_mov_prepare");
                        note("client %d: prepares a transfer on channels %d+%d", c, w.base, w.n);
                        check_ok(mli_mov_prepare(w.h, m.src.t, m.cfg, m.dst.t), "prepare", "client");
                        w.prepared = true;
                        probe("prepared");
                    }
                    if (flip()) {
                        context("mli_mov_start");
                        note("client %d: starts the transfer on channels %d+%d", c, w.base, w.n);
                        check_ok(mli_mov_start(w.h, m.src.t, m.cfg, m.dst.t), "start", "client");
                        w.prepared = false;
                        probe("started");
                    }
                  } else if (!mv.empty() && chance(1, 4)) {
                    // a synchronous move in between must not disturb the pool
                    Move& m = mv[ch((uint32_t)mv.size())];
                    context("mli_mov_tensor_sync");
                    note("client %d: synchronous move", c);
                    if (mli_mov_tensor_sync(m.src.t, m.cfg, m.dst.t) != MLI_STATUS_OK) violation("status-tensor_sync", "synchronous move failed with %d of %d channels free", W.pool.free_count(), W.pool.size);
                    probe("sync_move");
                  } else {
                    size_t i = ch((uint32_t)mine.size());
                    release(mine[i].h, c, mine[i].base, mine[i].n); live--;
                    spare.push_back(mine[i].h);
                    mine.erase(mine.begin() + i);
                  }
                }
                yield();
            }
            NoPreempt np;
            for (auto& m : mine) { release(m.h, c, m.base, m.n); live--; }
        }, "client");
        run_all();
        for (auto& o : orphans) { release(o.second.h, o.first, o.second.base, o.second.n); live--; }
        orphans.clear();
        if (live != 0) discard("live handles remain");
        drain();
        if (r + 1 < rounds) { probe("reconfigured"); int n = (int)ch(17); configure((int)ch(16 - n + 1), n); }
    }
}

// ======================================================================= C02
namespace {
struct Transfer {
    mli_mov_handle_t* h = nullptr; Move* m = nullptr; int client = -1;
    int fn = -1; int32_t cookie = 0; int calls = 0;
    int phase = 0;         // 0 idle, 1 acquired/open, 2 in prepare, 3 prepared, 4 in start, 5 started
    bool reused = false;   // handle already completed a transfer
    int base = 0, n = 0;
    Transfer* chained = nullptr;   // prepared transfer on another handle, started by this one's callback
};
std::vector<Transfer*> g_tr;           // by cookie index
std::map<int32_t, Transfer*> g_cookie;
std::vector<std::vector<Move>> g_pool_moves;
std::vector<int> g_next_move;
int g_cb_depth = 0;
int g_in_flight = 0;
std::vector<Transfer*> g_chain;

void do_transfer(Transfer& t, int depth);
// after the transfer of a handle that was started from inside a callback
void nested_done(Transfer& n) {
    if (mli_mov_wait(n.h) != MLI_STATUS_OK) violation("status-wait", "wait failed");
    if (!mli_mov_isdone(n.h)) violation("not-done-after-wait", "isdone is false after wait returned inside a callback");
    check_data(*n.m, "after a transfer started inside a callback"); check_params(*n.m);
    if (n.fn >= 0 && n.calls != 1) violation("callback-count", "callback was called %d times for one completed transfer that a callback had started", n.calls);
}
void on_callback(int fn, int32_t cookie) {
    NoPreempt np;
    note("callback function %d called with cookie %d", fn, cookie);
    probe("callback_called");
    mix(0xCB00 + fn); mix((uint64_t)(uint32_t)cookie);
    auto it = g_cookie.find(cookie);
    if (it == g_cookie.end()) violation("callback-unknown-cookie", "callback function %d called with cookie %d which no live transfer registered", fn, cookie);
    Transfer& t = *it->second;
    if (t.fn != fn) violation("callback-wrong-function", "callback function %d called, but function %d is registered for this transfer", fn, t.fn);
    if (t.phase != 4) violation("callback-not-started", "callback for a transfer that is not being started (phase %d)", t.phase);
    if (t.calls) violation("callback-twice", "callback called %d times for one transfer", t.calls + 1);
    t.calls++;
    if (!mli_mov_isdone(t.h)) violation("callback-before-done", "isdone is false inside the completion callback");
    check_data(*t.m, "when the callback ran");
    check_params(*t.m);
    if (t.chained) { // the next stage was prepared before this transfer was started
        Transfer& n = *t.chained; t.chained = nullptr;
        probe("started_in_callback");
        n.phase = 4;
        context("mli_mov_start");
        note("the callback starts %s", n.m->name.c_str());
        check_ok(mli_mov_start(n.h, n.m->src.t, n.m->cfg, n.m->dst.t), "start", n.m->name.c_str());
        n.phase = 5;
        nested_done(n);
    }
    int depth = g_cb_depth;
    if (depth < 2) {
        g_cb_depth++;
        int act = (int)ch(6);
        bool move_left = g_next_move[t.client] < (int)g_pool_moves[t.client].size();
        if (act == 1 && move_left) { // a further transfer on its own handle, acquired inside the callback
            Transfer* n = new Transfer; n->client = t.client;
            n->h = (mli_mov_handle_t*)calloc(1, sizeof(mli_mov_handle_t));
            int k = range(1, 3);
            if (acquire(k, n->h, 500 + t.client)) {
                probe("acquired_in_callback");
                n->base = n->h->dma_ch; n->n = k; n->phase = 1;
                do_transfer(*n, depth + 1);
                nested_done(*n);
                release(n->h, 500 + t.client, n->base, n->n);
                n->phase = 0;
                if (n->fn >= 0) g_cookie.erase(n->cookie);
            }
        } else if (act == 2) { // synchronous move inside a callback
            auto& v = g_pool_moves[t.client];
            if (g_next_move[t.client] < (int)v.size()) {
                Move& m = v[g_next_move[t.client]++];
                note("synchronous move inside the callback");
                probe("sync_in_callback");
                context("mli_mov_tensor_sync");
                check_ok(mli_mov_tensor_sync(m.src.t, m.cfg, m.dst.t), "tensor_sync", "callback");
                check_data(m, "after a synchronous move in a callback");
            }
        } else if (act == 3) { // look at every live handle
            for (auto* o : g_tr) if (o != &t && (o->phase == 1 || o->phase == 3) && !o->reused && mli_mov_isdone(o->h)) violation("done-too-early", "another handle reports done although it was never started");
        }
        g_cb_depth--;
    }
}
void cb0(int32_t c) { on_callback(0, c); }
void cb1(int32_t c) { on_callback(1, c); }
void cb2(int32_t c) { on_callback(2, c); }
void (*const kCb[3])(int32_t) = {cb0, cb1, cb2};
int32_t g_cookie_next;
int32_t next_cookie() {
    for (;;) {
        int32_t c = g_cookie_next;
        uint32_t by = chance(1, 4) ? 0u - 7 : chance(1, 8) ? 1u << (16 + ch(16)) : 3;
        g_cookie_next = (int32_t)((uint32_t)g_cookie_next + by);
        if (!g_cookie.count(c)) return c;
    }
}

// up to two more handles, prepared and registered, each started by the callback of the one before
void prepare_chain(Transfer& t, int left) {
    if (!left || g_next_move[t.client] >= (int)g_pool_moves[t.client].size()) return;
    NoPreempt np;
    Transfer* n = new Transfer; n->client = t.client;
    n->h = (mli_mov_handle_t*)calloc(1, sizeof(mli_mov_handle_t));
    int k = range(1, 2);
    if (!acquire(k, n->h, 700 + t.client)) return;
    n->base = n->h->dma_ch; n->n = k; n->phase = 1;
    n->m = &g_pool_moves[t.client][g_next_move[t.client]++];
    if (chance(3, 4)) {
        n->fn = (int)ch(3);
        n->cookie = next_cookie();
        g_cookie[n->cookie] = n;
        context("mli_mov_registercallback");
        check_ok(mli_mov_registercallback(n->h, kCb[n->fn], n->cookie), "registercallback", "chain");
    }
    n->phase = 2;
    context("mli_mov_prepare");
    check_ok(mli_mov_prepare(n->h, n->m->src.t, n->m->cfg, n->m->dst.t), "prepare", n->m->name.c_str());
    n->phase = 3;
    g_tr.push_back(n);
    t.chained = n; g_chain.push_back(n);
    if (n->fn >= 0) prepare_chain(*n, left - 1);
}
void finish_chain(int client) {
    NoPreempt np;
    for (size_t i = 0; i < g_chain.size();) {
        Transfer* n = g_chain[i];
        if (n->client != client) { i++; continue; }
        if (n->phase != 5) violation("chain-not-started", "the callback that starts the next transfer has not run although its own transfer is complete");
        release(n->h, 700 + client, n->base, n->n); n->phase = 0;
        if (n->fn >= 0) g_cookie.erase(n->cookie);
        for (size_t k = 0; k < g_tr.size(); k++) if (g_tr[k] == n) { g_tr.erase(g_tr.begin() + k); break; }
        g_chain.erase(g_chain.begin() + i);
    }
}

// prepare / register / start on a live handle; the transfer is started when this returns
void do_transfer(Transfer& t, int depth) {
    auto& v = g_pool_moves[t.client];
    if (g_next_move[t.client] >= (int)v.size()) return;
    t.phase = 1;
    t.m = &v[g_next_move[t.client]++];
    t.calls = 0;
    bool cb_first = flip(), want_cb = chance(3, 4);
    auto reg = [&] {
        if (!want_cb && t.fn < 0) return;          // nothing registered on this handle so far
        if (t.fn >= 0 && chance(1, 3)) return;     // keep the earlier registration
        NoPreempt np;
        if (t.fn >= 0) g_cookie.erase(t.cookie);
        t.fn = (int)ch(3);
        t.cookie = next_cookie();
        g_cookie[t.cookie] = &t;
        context("mli_mov_registercallback");
        note("client %d registers callback function %d, cookie %d", t.client, t.fn, t.cookie);
        check_ok(mli_mov_registercallback(t.h, kCb[t.fn], t.cookie), "registercallback", "client");
    };
    if (cb_first) reg();
    if (depth == 0) yield();
    t.phase = 2;
    context("mli_mov_prepare");
    note("client %d prepares %s", t.client, t.m->name.c_str());
    mli_status st = mli_mov_prepare(t.h, t.m->src.t, t.m->cfg, t.m->dst.t);
    check_ok(st, "prepare", t.m->name.c_str());
    t.phase = 3;
    { NoPreempt np; if (mli_mov_isdone(t.h)) violation("done-before-start", "isdone is true after prepare and before start"); }
    if (depth == 0) yield();
    if (!cb_first) reg();
    if (depth == 0) yield();
    if (depth == 0 && t.fn >= 0 && chance(1, 4)) { prepare_chain(t, range(1, 2)); yield(); }
    t.phase = 4;
    g_in_flight++;
    context("mli_mov_start");
    note("client %d starts %s", t.client, t.m->name.c_str());
    { NoPreempt np;        // the callback runs here, in the context of the caller
      check_ok(mli_mov_start(t.h, t.m->src.t, t.m->cfg, t.m->dst.t), "start", t.m->name.c_str()); }
    t.phase = 5;
}
}  // namespace

SIM_SCENARIO(C02, async_protocol) {
    context("setup");
    set_preempt_density((int)ch(4));
    int nclients = range(1, 5);
    g_pool_moves.resize(nclients); g_next_move.assign(nclients, 0);
    g_cookie_next = flip() ? (int32_t)ch(1000) - 500 : (int32_t)(ch(1u << 30) * 4 + ch(4));
    for (int c = 0; c < nclients; c++) { int k = range(1, 5); for (int i = 0; i < k; i++) g_pool_moves[c].push_back(make_move(("c" + std::to_string(c) + "m" + std::to_string(i)).c_str())); }
    { int n = range(1, 16); configure((int)ch(16 - n + 1), n); }
    Image im = snapshot(); Mask mask;
    for (auto& v : g_pool_moves) for (auto& m : v) { mask.allow(m.dst.t, sizeof(mli_tensor)); }
    std::vector<std::vector<mli_tensor>> fresh;      // the destination descriptors before the first transfer
    for (auto& v : g_pool_moves) { fresh.emplace_back(); for (auto& m : v) fresh.back().push_back(*m.dst.t); }
    int again = chance(1, 25) ? range(20, 200) : 0;  // long histories: transfers which were made already are made again
    if (again) probe("long history");
    auto repeat = [&](int c) {
        if (!again || g_next_move[c] < 1 || !chance(7, 8)) return;
        NoPreempt np;
        again--;
        int i = (int)ch(g_next_move[c]), j = --g_next_move[c];
        std::swap(g_pool_moves[c][i], g_pool_moves[c][j]); std::swap(fresh[c][i], fresh[c][j]);
        Move& m = g_pool_moves[c][j];
        *m.dst.t = fresh[c][j];
        for (auto& w : m.writes) memset(w.first, (int)(again * 37), w.second.size());
    };
    for (int c = 0; c < nclients; c++) spawn([&, c] {
        while (repeat(c), g_next_move[c] < (int)g_pool_moves[c].size()) {
            Transfer& t = *new Transfer; t.client = c;
            t.h = (mli_mov_handle_t*)calloc(1, sizeof(mli_mov_handle_t));
            int k = std::min(W.pool.size, chance(2, 3) ? 1 : range(1, 4));
            for (;;) { { NoPreempt np; if (acquire(k, t.h, c)) break; } yield(); }
            { NoPreempt np;
              t.base = t.h->dma_ch; t.n = k; t.phase = 1; g_tr.push_back(&t);
              int live = 0; for (auto* o : g_tr) live += o->phase != 0; if (live > 1) { nontrivial(); probe("several_live_handles"); }
              if (mli_mov_isdone(t.h)) violation("done-after-acquire", "isdone is true on a fresh handle"); }
            yield();
            int uses = again && chance(1, 4) ? range(4, 60) : range(1, 3);
            for (int u = 0; u < uses; u++) {
                if (u && again) { t.phase = 1; repeat(c); }
                if (g_next_move[c] >= (int)g_pool_moves[c].size()) break;
                do_transfer(t, 0);
                int how = (int)ch(3);
                if (how == 0) { context("mli_mov_wait"); if (mli_mov_wait(t.h) != MLI_STATUS_OK) violation("status-wait", "wait failed"); }
                else if (how == 1) { bound_slice(50); int n = 0; context("mli_mov_isdone"); while (!mli_mov_isdone(t.h)) { yield(); if (++n > 500) violation("never-done", "transfer was started but never completes"); } bound_slice(0); }
                else { yield(); if (!mli_mov_isdone(t.h)) { context("mli_mov_wait"); mli_mov_wait(t.h); } }
                NoPreempt np;
                if (!mli_mov_isdone(t.h)) violation("not-done-after-wait", "isdone is false after wait returned");
                check_data(*t.m, "after completion"); check_params(*t.m);
                if (t.fn >= 0 && t.calls != 1) violation("callback-count", "callback was called %d times for one completed transfer", t.calls);
                mix(t.calls); t.reused = true;
                finish_chain(c);
                if (chance(1, 2)) yield();
            }
            { NoPreempt np; release(t.h, c, t.base, t.n); t.phase = 0; if (t.fn >= 0) g_cookie.erase(t.cookie);
              for (size_t i = 0; i < g_tr.size(); i++) if (g_tr[i] == &t) { g_tr.erase(g_tr.begin() + i); break; } }
            yield();
        }
    }, "client");
    if (chance(1, 2)) spawn([&] {          // an observer polls handles of others at arbitrary moments
        for (int i = 0; i < 30; i++) {
            { NoPreempt np;
              for (auto* t : g_tr) {
                bool d = mli_mov_isdone(t->h);
                if ((t->phase == 1 || t->phase == 2 || t->phase == 3) && !t->reused && d) violation("done-too-early", "isdone is true in phase %d, before the first transfer of the handle was started", t->phase);
                if (t->phase == 3 && d) violation("done-too-early", "isdone is true on a prepared handle that was not started");
                if (d && t->phase >= 4) { check_data(*t->m, "when another task saw isdone"); probe("observed_done_by_other"); }
              } }
            yield();
        }
    }, "observer");
    run_all();
    drain();
    for (size_t c = 0; c < g_pool_moves.size(); c++) for (int i = 0; i < g_next_move[c]; i++) poke_move(im, g_pool_moves[c][i]);
    std::string d = diff(im, mask);
    if (!d.empty()) violation("stray-write", "%s", d.c_str());
}

// ======================================================================= C03
SIM_SCENARIO(C03, random_moves) {
    context("setup");
    int k = range(1, 4);
    bool inter = flip() && k > 1;
    set_preempt_density(inter ? 1 + (int)ch(3) : 0);
    stack_garbage(data_seed());
    std::vector<Move> ms;
    for (int i = 0; i < k; i++) ms.push_back(make_move(("m" + std::to_string(i)).c_str()));
    configure(0, 16);
    Image im = snapshot(); Mask mask;
    for (auto& m : ms) mask.allow(m.dst.t, sizeof(mli_tensor));
    nontrivial();
    auto body = [&](int i) {
        Move& m = ms[i];
        bool async = flip();
        if (async) {
            mli_mov_handle_t h; memset(&h, 0, sizeof h);
            int n = 1;
            { NoPreempt np; if (!acquire(n, &h, i)) violation("acquire-refused", "no channel"); }
            int base = h.dma_ch;
            context("mli_mov_prepare");
            check_ok(mli_mov_prepare(&h, m.src.t, m.cfg, m.dst.t), "prepare", m.name.c_str());
            yield();
            context("mli_mov_start");
            check_ok(mli_mov_start(&h, m.src.t, m.cfg, m.dst.t), "start", m.name.c_str());
            yield();
            context("mli_mov_wait");
            check_ok(mli_mov_wait(&h), "wait", m.name.c_str());
            NoPreempt np; release(&h, i, base, n);
        } else {
            context("mli_mov_tensor_sync");
            check_ok(mli_mov_tensor_sync(m.src.t, m.cfg, m.dst.t), "tensor_sync", m.name.c_str());
        }
        check_data(m, "after completion"); check_params(m);
        poke_move(im, m);
        if (chance(1, 3)) { // the source may change as soon as the transfer is complete
            NoPreempt np; uint64_t s = data_seed(); fault("source_overwritten_after_completion");
            fill(m.src.data, s);
            poke(im, m.src.data.base, m.src.data.base, m.src.data.span);
        }
        mix(i); for (auto& w : m.writes) for (uint8_t x : w.second) mix(x);
    };
    if (inter) { for (int i = 0; i < k; i++) spawn([&, i] { body(i); }, "mover"); run_all(); }
    else for (int i = 0; i < k; i++) run_solo([&, i] { body(i); });
    std::string d = diff(im, mask);
    if (!d.empty()) violation("stray-write", "%s", d.c_str());
    for (auto& m : ms) check_params(m);
}

// One set of variables and buffers (and handle) serves a series of moves: what they held for earlier ones is no input.
SIM_SCENARIO(C03, reused_memory) {
    context("setup");
    int rounds = range(2, 4);
    configure(0, 16);
    stack_garbage(data_seed());
    mli_mov_handle_t h; memset(&h, 0, sizeof h);
    bool keep = flip();
    int base = -1;
    for (int r = 0; r < rounds; r++) {
        rewind_arena(true);
        Move m = make_move(("m" + std::to_string(r)).c_str());
        Image im = snapshot(); Mask mask;
        mask.allow(m.dst.t, sizeof(mli_tensor));
        run_solo([&] {
            if (flip()) {
                if (base < 0) { if (!acquire(1, &h, 0)) violation("acquire-refused", "no channel"); base = h.dma_ch; }
                context("mli_mov_prepare");
                check_ok(mli_mov_prepare(&h, m.src.t, m.cfg, m.dst.t), "prepare", m.name.c_str());
                context("mli_mov_start");
                check_ok(mli_mov_start(&h, m.src.t, m.cfg, m.dst.t), "start", m.name.c_str());
                context("mli_mov_wait");
                check_ok(mli_mov_wait(&h), "wait", m.name.c_str());
                if (!keep) { release(&h, 0, base, 1); base = -1; }
            } else {
                context("mli_mov_tensor_sync");
                check_ok(mli_mov_tensor_sync(m.src.t, m.cfg, m.dst.t), "tensor_sync", m.name.c_str());
            }
        });
        check_data(m, "in memory that earlier moves have used"); check_params(m);
        poke_move(im, m);
        std::string d = diff(im, mask);
        if (!d.empty()) violation("stray-write", "%s", d.c_str());
        if (r) fault("memory reused for another move");
        mix(r); for (auto& w : m.writes) for (uint8_t x : w.second) mix(x);
    }
    nontrivial();
}

// Several movers assemble one destination (concatenation along one axis) at the same time.
SIM_SCENARIO(C03, concat) {
    context("setup");
    int n = range(2, 5), rank = range(1, 4), axis = (int)ch(rank);
    mli_element_type ty = pick_type();
    uint32_t big[4] = {1, 1, 1, 1};
    for (int i = 0; i < rank; i++) big[i] = longer(1 + ch(5));
    std::vector<uint32_t> part(n); uint32_t tot = 0;
    for (auto& p : part) { p = 1 + ch(4); tot += p; }
    big[axis] = tot;
    int32_t st[4]; make_strides(rank, big, st, flip(), flip());
    size_t bytes = span_elems(rank, big, st) * el_size(ty);
    Buf out = alloc(bytes, "shared destination", -1, 4);
    set_preempt_density((int)ch(4));
    configure(0, 16);
    std::vector<Move> ms(n); uint32_t at = 0;
    for (int k = 0; k < n; k++) {
        Move& m = ms[k]; m.name = "part" + std::to_string(k);
        uint32_t sh[4]; for (int i = 0; i < 4; i++) sh[i] = big[i]; sh[axis] = part[k];
        m.src = make_src(rank, sh, ty, false, (m.name + ".src").c_str());
        Want w; w.doff[axis] = at; for (int i = 0; i < rank; i++) w.dstr[i] = st[i];
        at += part[k];
        m.dst.t = boxed<mli_tensor>((m.name + ".dst descriptor").c_str());
        m.dst.t->data.mem.pi8 = (int8_t*)out.p; m.dst.t->data.capacity = (uint32_t)bytes;
        int32_t own[4] = {0, 0, 0, 0};
        expect(m, w, own);
        m.cfg = boxed<mli_mov_cfg_t>((m.name + ".cfg").c_str());
        put_cfg(m.cfg, w, rank, flip() ? 3 : 9);
        expect_writes(m, w);
    }
    nontrivial();
    Image im = snapshot(); Mask mask;
    for (auto& m : ms) { mask.allow(m.dst.t, sizeof(mli_tensor)); poke_move(im, m); }
    for (int k = 0; k < n; k++) spawn([&, k] {
        Move& m = ms[k];
        int rep = chance(1, 5) ? 2 : 1;      // a mover that was lost is simply run again
        for (int r = 0; r < rep; r++) { if (r) fault("mover_restarted"); context("mli_mov_tensor_sync"); check_ok(mli_mov_tensor_sync(m.src.t, m.cfg, m.dst.t), "tensor_sync", m.name.c_str()); yield(); }
        check_params(m);
    }, "mover");
    run_all();
    std::string d = diff(im, mask);
    if (!d.empty()) violation("concat-result", "%s", d.c_str());
}

// ======================================================================= C04
SIM_SCENARIO(C04, sync_among_live) {
    context("setup");
    set_preempt_density((int)ch(4));
    int nlive = (int)ch(5), nsync = range(1, 4);
    g_pool_moves.resize(1); g_next_move.assign(1, 0);
    std::vector<Move> lm, sm;
    for (int i = 0; i < nlive; i++) lm.push_back(make_move(("live" + std::to_string(i)).c_str()));
    for (int i = 0; i < nsync; i++) sm.push_back(make_move(("sync" + std::to_string(i)).c_str()));
    int size = std::max((int)ch(17), 0);
    configure((int)ch(16 - size + 1), size);
    std::vector<Transfer*> tr;
    std::vector<mli_mov_handle_t*> hb;
    g_cookie_next = flip() ? 100 : (int32_t)(ch(1u << 30) * 4 + ch(4));
    for (int i = 0; i < nlive; i++) {
        Transfer* t = new Transfer; t->client = 0; t->m = &lm[i];
        t->h = boxed<mli_mov_handle_t>(("handle" + std::to_string(i)).c_str());
        int k = range(1, 3);
        if (!acquire(k, t->h, i)) continue;
        t->base = t->h->dma_ch; t->n = k; t->phase = 1; tr.push_back(t);
        if (flip()) { t->fn = (int)ch(3); t->cookie = g_cookie_next; g_cookie_next = (int32_t)((uint32_t)g_cookie_next + 1); g_cookie[t->cookie] = t; mli_mov_registercallback(t->h, kCb[t->fn], t->cookie); }
        if (flip()) { context("mli_mov_prepare"); check_ok(mli_mov_prepare(t->h, t->m->src.t, t->m->cfg, t->m->dst.t), "prepare", t->m->name.c_str()); t->phase = 3;
            if (flip()) { t->phase = 4; g_cb_depth = 2; mli_mov_start(t->h, t->m->src.t, t->m->cfg, t->m->dst.t); g_cb_depth = 0; t->phase = 5; if (t->fn >= 0 && t->calls != 1) violation("callback-count", "callback called %d times", t->calls); } }
    }
    while (chance(1, 2) && W.pool.has_block(1)) { auto* h = boxed<mli_mov_handle_t>("idle handle"); if (acquire(1, h, 77)) { hb.push_back(h); } }
    if (W.pool.free_count() == 0) probe("pool_exhausted_or_empty");
    if (!tr.empty()) nontrivial();
    if (size == 0) nontrivial();
    Image im = snapshot(); Mask mask;
    std::vector<int> done(nsync, 0);
    for (auto& m : sm) mask.allow(m.dst.t, sizeof(mli_tensor));
    for (int i = 0; i < nsync; i++) spawn([&, i] {
        Move& m = sm[i];
        const mli_tensor* src = m.src.t; const mli_mov_cfg_t* cfg = m.cfg; mli_tensor* dst = m.dst.t;
        mli_tensor bad_s, bad_d; mli_mov_cfg_t bad_c;
        int cor = checked_build() && flip() ? 1 + (int)ch(16) : 0;
        bool applied = cor != 0;
        uint32_t dm = ch(m.rank);
        switch (cor) {
        case 1: src = nullptr; break;
        case 2: cfg = nullptr; break;
        case 3: dst = nullptr; break;
        case 4: bad_s = *src; bad_s.data.mem.pi8 = nullptr; src = &bad_s; break;
        case 5: bad_d = *dst; bad_d.data.mem.pi8 = nullptr; dst = &bad_d; break;
        case 6: bad_s = *src; bad_s.rank = 5 + ch(3); src = &bad_s; break;
        case 7: bad_s = *src; bad_s.shape[dm] = 0; src = &bad_s; break;
        case 8: bad_s = *src; bad_s.mem_stride[dm] = flip() ? 0 : -1; src = &bad_s; break;
        case 9: bad_s = *src; bad_s.data.capacity -= 1 + ch(bad_s.data.capacity); src = &bad_s; break;
        case 10: bad_d = *dst; bad_d.data.capacity -= 1 + ch(bad_d.data.capacity); dst = &bad_d; break;
        case 11: bad_d = *dst; bad_d.data = src->data; bad_d.data.capacity = std::max(src->data.capacity, dst->data.capacity); dst = &bad_d; break;
        case 12: bad_c = *cfg; bad_c.size[dm] = src->shape[dm] + cfg->padding_pre[dm] + cfg->padding_post[dm] - cfg->offset[dm] + 1 + ch(3); cfg = &bad_c; break;
        case 13: bad_c = *cfg; bad_c.sub_sample_step[dm] = 0; cfg = &bad_c; break;
        case 14: bad_c = *cfg; bad_c.perm_dim[dm] = (uint8_t)(m.rank + ch(3)); cfg = &bad_c; break;
        case 15: if (m.own_params) { bad_d = *dst; bad_d.el_params.sa.scale.capacity = 0; dst = &bad_d; } else if (m.per_axis) { bad_d = *dst; bad_d.el_params = src->el_params; bad_d.el_params.sa.scale.mem.pi16 = nullptr; dst = &bad_d; } else applied = false; break;
        case 16:   // the three parameter arrays of the destination must all be its own, all the source's, or all absent
            if (m.per_axis) {
                bad_d = *dst; auto &q = bad_d.el_params.sa; const auto &o = src->el_params.sa;
                bool absent = q.scale.mem.pi16 == nullptr;
                switch (ch(3)) {
                case 0: if (absent) q.scale = o.scale; else if (m.own_params && flip()) q.scale = o.scale; else q.scale.mem.pi16 = nullptr; break;
                case 1: if (absent) q.zero_point = o.zero_point; else if (m.own_params && flip()) q.zero_point = o.zero_point; else q.zero_point.mem.pi16 = nullptr; break;
                default: if (absent) q.scale_frac_bits = o.scale_frac_bits; else if (m.own_params && flip()) q.scale_frac_bits = o.scale_frac_bits; else q.scale_frac_bits.mem.pi8 = nullptr; break;
                }
                dst = &bad_d;
            } else applied = false;
            break;
        default: break;
        }
        char what[40]; snprintf(what, sizeof what, "mli_mov_tensor_sync bad=%d", cor);
        context(what);
        note("synchronous move %s, corruption %d", m.name.c_str(), cor);
        mli_status st = mli_mov_tensor_sync(src, cfg, dst);
        mix(((uint64_t)cor << 8) ^ (uint64_t)st);
        if (applied) {
            char fk[40]; snprintf(fk, sizeof fk, "bad_argument_%d", cor); fault(fk);
            char k[40]; snprintf(k, sizeof k, "bad-accepted-%d", cor);
            if (st == MLI_STATUS_OK) violation(k, "a move with corruption %d was accepted", cor);
            if (m.own_params) { NoPreempt np; mask.allow(m.dst.scale.p, m.dst.scale.n); mask.allow(m.dst.zp.p, m.dst.zp.n); mask.allow(m.dst.frac.p, m.dst.frac.n); }
        } else {
            check_ok(st, "tensor_sync", m.name.c_str());
            check_data(m, "after the synchronous move"); check_params(m);
            NoPreempt np; poke_move(im, m); done[i] = 1;
        }
    }, "sync");
    run_all();
    std::string d = diff(im, mask);       // handles are in the arena: they must be unchanged, too
    if (!d.empty()) violation("trace-left", "%s", d.c_str());
    for (auto* t : tr) {
        bool dn = mli_mov_isdone(t->h);
        if (dn != (t->phase == 5)) violation("live-handle-state", "a live handle in phase %d reports isdone=%d after synchronous moves", t->phase, dn);
        if (t->fn >= 0 && t->calls != (t->phase == 5)) violation("foreign-callback", "callback of a live handle was called %d times", t->calls);
    }
    // the live transfers go on as if nothing had happened
    for (auto* t : tr) {
        if (t->phase == 5) continue;
        if (t->phase == 1) { context("mli_mov_prepare"); check_ok(mli_mov_prepare(t->h, t->m->src.t, t->m->cfg, t->m->dst.t), "prepare", "live"); t->phase = 3; }
        t->phase = 4; g_cb_depth = 2; context("mli_mov_start");
        check_ok(mli_mov_start(t->h, t->m->src.t, t->m->cfg, t->m->dst.t), "start", "live"); t->phase = 5; g_cb_depth = 0;
        if (!mli_mov_isdone(t->h)) violation("never-done", "live transfer does not complete");
        if (t->fn >= 0 && t->calls != 1) violation("callback-count", "callback of a live handle was called %d times", t->calls);
        check_data(*t->m, "after completion"); check_params(*t->m);
    }
    if (chance(1, 2)) for (auto* t : tr) release(t->h, 0, t->base, t->n);
    drain();
}
