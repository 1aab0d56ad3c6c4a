// Random MLI 3.0 kernel problems and how each is compiled.
#include "k3.h"
namespace k3 {
const M::PlatformDescription g_pd;
// One axis of a problem is longer than 15 (or 16) bits can count; the others are as short as they can be.
static bool g_huge = false; static int g_huge_axis = 0;
void huge_axis() { g_huge = true; g_huge_axis = (int)ch(4); }
bool huge() { return g_huge; }
static uint32_t lng(uint32_t v, uint32_t lo = 1) {
    if (!g_huge) return longer(v);
    if (g_huge_axis-- != 0) return ch(5) == 4 ? v < 2 ? v : std::max(lo, 2u) : lo;
    probe("a tensor axis longer than 32767");
    return (uint32_t)range(32700, 66500);
}

static void set_op(Op& o, const char* name, Role role, int rank, const uint32_t* sh, int esz, Rng& r, bool gaps) {
    o.name = name; o.role = role; o.rank = rank; o.esz = esz;
    int64_t next = 1;
    for (int i = rank - 1; i >= 0; i--) {
        o.sh[i] = sh[i];
        int64_t s = next;
        if (gaps && i < rank - 1) s += ch(4);
        o.st[i] = (int32_t)s; next = s * sh[i];
    }
    o.full.resize(span(rank, o.sh, o.st) * esz);
    for (auto& b : o.full) b = (uint8_t)r.next();
}
static Op mk(const char* name, Role role, std::vector<uint32_t> sh, int esz, Rng& r, bool gaps) { Op o; set_op(o, name, role, (int)sh.size(), sh.data(), esz, r, gaps); return o; }
static void same_strides(Op& o, const Op& like) { for (int i = 0; i < o.rank; i++) o.st[i] = like.st[i]; o.full.resize(span(o.rank, o.sh, o.st) * o.esz); }
static Op param(const char* name, size_t bytes, int esz, bool early) { Op o; o.name = name; o.role = PARAM; o.esz = esz; o.tbytes = bytes; o.early = early; return o; }
template <unsigned N> static M::Tensor<NoBuffer, N> ten(const Op& o) {
    uint32_t s[N]; int32_t m[N];
    for (unsigned i = 0; i < N; i++) { s[i] = o.sh[i]; m[i] = o.st[i]; }
    return M::Tensor<NoBuffer, N>(s, m);
}
template <class T, class C> static void tmax_from(Op& o, const C& cfg, T) {
    for (int i = 0; i < o.rank; i++) o.tmax[i] = std::min<int>(o.sh[i], std::max<int>(std::max<int>(cfg.get_first_size(i), cfg.get_size(i)), cfg.get_last_size(i)));
}
static void finish_op(Op& o) { if (o.role != PARAM) o.tbytes = span(o.rank, o.tmax, o.st) * o.esz; }
template <unsigned N> static void use_it(Op& o, const TI<N>& it) { tmax_from(o, it.get_config(), 0); finish_op(o); }
static void full_tile(Op& o) { for (int i = 0; i < o.rank; i++) o.tmax[i] = o.sh[i]; finish_op(o); }
static const int32_t kOrder[5] = {0, 1, 2, 3, 4};

template <unsigned N> static TI<N> grid_it(const Op& o, const uint32_t* tile, uint32_t skew = 0) {
    uint32_t t[N]; for (unsigned i = 0; i < N; i++) t[i] = tile[i];
    if (skew) return TI<N>(ten<N>(o), M::IteratorCfg<N>(ten<N>(o), t, kOrder, skew));
    return TI<N>(ten<N>(o), t, kOrder);
}
static void grid_view(const Op& o, const uint32_t* tile, uint32_t idx, View& v, uint32_t skew = 0) {
    for (int i = 0; i < o.rank; i++, skew = 0) {
        uint32_t n = (o.sh[i] + skew + tile[i] - 1) / tile[i], k = idx % n; idx /= n;
        uint32_t from = k ? k * tile[i] - skew : 0, to = std::min((k + 1) * tile[i] - skew, o.sh[i]);
        v.of[i] = (int32_t)from; v.sz[i] = to - from;
    }
}
// The first tile of the first axis may be smaller than the others, as kernels that run fused with each other want it.
static uint32_t skewed(uint32_t n, uint32_t tile) {
    if (tile < 2 || n < tile || ch(3)) return 0;
    probe("first tile smaller than the others");
    return 1 + ch(tile - 1);
}

static void must(mli_status s, const char* what) { if (s != MLI_STATUS_OK) violation(std::string("compile-status/") + what, "%s returned %d for a valid kernel", what, (int)s); }

// The compile-time object lives in a guarded buffer of the declared size full of garbage, and is gone afterwards.
template <class MakeCs, class Attach> static void compile_with(uint32_t cs_size, MakeCs mk_cs, Attach attach, Bytes& priv, uint32_t& objsize) {
    Buf b = alloc(cs_size, "compile-time object", kEnd, 8);
    fill(b, data_seed());
    auto* cs = mk_cs((void*)b.p);
    if ((void*)cs == nullptr) violation("compile-null", "factory returned null");
    must(attach(cs), "AttachBufferOffsets");
    objsize = cs->GetRuntimeObjectSize();
    uint32_t n = cs->GetKernelPrivateDataSize();
    Buf p = alloc(n, "private data (compile time)", kEnd, 8);
    fill(p, data_seed());
    must(cs->GetKernelPrivateData(p.p), "GetKernelPrivateData");
    priv.assign(p.p, p.p + n);
    if (cs->GetRuntimeObjectSize() != objsize || cs->GetKernelPrivateDataSize() != n) violation("size-changed", "object or private data size changed after GetKernelPrivateData");
    fill(b, data_seed()); fill(p, data_seed());
}
// The interface has older ways to say the same: constructors from plain tensors (a single tile), AttachBufferOffsets
// with tensors, and host-side encoders for the parameters. Kernels made in any of these ways have to agree.
static bool plain(const Kern& k) { bool y = k.tiles == 1 && ch(4) == 3; if (y) probe("deprecated constructor"); return y; }
static bool attach_tensors(const Kern& k) { bool y = k.tiles == 1 && ch(4) == 3; if (y) probe("attached as tensors"); return y; }
static bool encode() { bool y = ch(3) == 2; if (y) probe("parameters encoded by the compile-time object"); return y; }
template <unsigned N> static M::Tensor<OffsetBuffer, N> oten(const Op& o, const OffsetBuffer& b) {
    uint32_t s[N]; int32_t m[N];
    for (unsigned i = 0; i < N; i++) { s[i] = o.sh[i]; m[i] = o.st[i]; }
    return M::Tensor<OffsetBuffer, N>(b, s, m);
}
static Op with_group(const Op& o) { Op r = o; r.rank = 5; r.sh[3] = 1; r.st[3] = o.st[2]; r.sh[4] = o.sh[3]; r.st[4] = o.st[3]; return r; }   // BHWC -> BHWGC
static Op no_group(const Op& o) { Op r = o; r.rank = 4; r.sh[3] = o.sh[4]; r.st[3] = o.st[4]; return r; }   // BHWGC -> BHWC
static Buf host(const uint8_t* p, size_t n) { Buf b = alloc(n, "host buffer", kEnd, 8); memcpy(b.p, p, n); return b; }
static Buf encoded_buf(size_t n) { Buf b = alloc(n, "encoded parameters", kEnd, 8); fill(b, data_seed()); return b; }
static M::Tensor<M::Buffer, 1> vec(const Buf& b, int esz) { uint32_t s[1] = {(uint32_t)(b.n / esz)}; return M::Tensor<M::Buffer, 1>(M::Buffer(b.p, (uint32_t)b.n, (uint32_t)esz), s); }
static void need(unsigned reported, size_t n) { if (reported < n) violation("buffer-size/parameters", "the kernel asks for %u bytes of parameters, which take %zu", reported, n); }
template <unsigned N, class C> static void encode_conv(C* c, Kern& k) {
    need(c->GetEncodedWeightsSize(), k.ops[2].full.size()); need(c->GetEncodedInpZeroPtsSize(), 1); need(c->GetEncodedWtsZeroPtsSize(), k.ops[4].full.size());
    if (!encode()) return;
    Op &w = k.ops[2], &iz = k.ops[3], &wz = k.ops[4];
    Buf hw = host(w.full.data(), w.full.size()), hi = host(iz.full.data(), iz.full.size()), hz = host(wz.full.data(), wz.full.size());
    uint32_t s[N]; int32_t m[N];
    for (unsigned i = 0; i < N; i++) { s[i] = w.sh[i]; m[i] = w.st[i]; }
    M::Tensor<M::Buffer, N> tw(M::Buffer(hw.p, (uint32_t)hw.n, 1), s, m);
    auto ti = vec(hi, 1), tz = vec(hz, 1);
    Buf ei = encoded_buf(hi.n); M::Buffer bi(ei.p, (uint32_t)ei.n, 1);
    M::TensorIterator<M::Buffer, 1, 5> ii(ti), iz_it(tz);
    if (ch(2)) must(c->EncodeInpZeroPts(ti, bi), "EncodeInpZeroPts"); else must(c->EncodeInpZeroPts(ii, bi), "EncodeInpZeroPts");
    iz.full.assign(ei.p, ei.p + ei.n);
    if (ch(2)) {
        Buf ew = encoded_buf(hw.n), ez = encoded_buf(hz.n);
        M::Buffer bw(ew.p, (uint32_t)ew.n, 1), bz(ez.p, (uint32_t)ez.n, 1);
        must(c->EncodeWeights(tw, bw, M::compression_mode_t::Uncompressed), "EncodeWeights");
        must(c->EncodeWtsZeroPts(tz, bz), "EncodeWtsZeroPts");
        w.full.assign(ew.p, ew.p + ew.n); wz.full.assign(ez.p, ez.p + ez.n);
    } else {
        Buf e = encoded_buf(hw.n + hz.n); M::Buffer be(e.p, (uint32_t)e.n, 1);
        M::TensorIterator<M::Buffer, N, 5> wi(tw);
        must(c->EncodeWeightsAndZeroPts(wi, iz_it, be), "EncodeWeightsAndZeroPts");
        w.full.assign(e.p, e.p + hw.n); wz.full.assign(e.p + hw.n, e.p + e.n);
    }
}
template <int N> static void copy_view(View& v, const uint32_t* s, const int32_t* o) { for (int i = 0; i < N; i++) { v.sz[i] = s[i]; v.of[i] = o[i]; } }
static void whole_view(View& v, const Op& o) { for (int i = 0; i < o.rank; i++) { v.sz[i] = o.sh[i]; v.of[i] = 0; } }
static const OffsetBuffer kCtrl(0, 0, 0, 1);
// The buffer size, in elements, which a compile-time object asks for has to hold the tensor.
static void room(unsigned reported, const Op& o, const char* what) {
    int64_t n = 1; for (int i = 0; i < o.rank; i++) n += (int64_t)o.st[i] * (o.sh[i] - 1);
    if ((int64_t)reported < n) violation(std::string("buffer-size/") + what, "the kernel asks for %u elements for its %s, which takes up %lld", reported, what, (long long)n);
}

static int tile_from(int lo, int n) { return range(n > 2000 ? std::max(lo, n / 6) : lo, n); }
static int pick_tile(int n) { return ch(3) == 0 ? n : tile_from(1, n); }
struct Sp { int in, k, d, s, pb, pe, out, ek; };  // one spatial axis
static Sp gen_axis(bool dil, int maxk = 3) {
    for (int t = 0; t < 20; t++) {
        Sp a; a.k = range(1, maxk); a.d = dil && ch(4) == 0 ? 2 : 1; a.s = range(1, 3); a.ek = (a.k - 1) * a.d + 1;
        a.pb = ch(2) ? (int)ch(a.ek) : 0; a.pe = ch(2) ? (int)ch(a.ek) : 0;
        a.in = (int)lng(range(std::max(1, a.ek), 10), std::max(1, a.ek));
        a.out = (a.in + a.pb + a.pe - a.ek) / a.s + 1;
        if (a.out >= 1) return a;
    }
    return Sp{4, 1, 1, 1, 0, 0, 4, 1};
}
// A tile has to reach past the padding in front of the tensor.
static int axis_tile(const Sp& a) { int lo = std::min(a.out, std::max(1, (a.pb + a.s - 1) / a.s)); return ch(3) == 0 ? a.out : tile_from(lo, a.out); }
static bool axis_ok(const Sp& a) { return a.out * a.s >= a.pb; }

// ------------------------------------------------------------------------------------------------ convolutions
// The reference convolutions use one weight zero point per call (mli_prv_quant_ref.h), so all channels have the same.
static void uniform(Op& o) { for (auto& b : o.full) b = o.full[0]; }
static Kern make_conv(const Problem& P, const uint32_t* tile) {
    Kern k; k.name = P.name; k.ops = P.ops;
    for (int i = 0; i < 6; i++) k.tile[i] = tile[i];
    const int* p = P.p;                          // kh kw sh sw pt pl pb pr dh dw
    auto out = grid_it<5>(k.ops[1], tile, tile[5]);
    uint32_t ek[5] = {1, (uint32_t)((p[0] - 1) * p[8] + 1), (uint32_t)((p[1] - 1) * p[9] + 1), 1, k.ops[0].sh[4]};
    uint32_t st[5] = {1, (uint32_t)p[2], (uint32_t)p[3], 1, 0};
    uint32_t pre[5] = {0, (uint32_t)p[4], (uint32_t)p[5], 0, 0};
    TI<5> in(ten<5>(k.ops[0]), out, ek, st, pre);
    const int32_t mask[5] = {1, 1, 1, 1, 0};
    TI<5> w(ten<5>(k.ops[2]), out, nullptr, mask);
    uint32_t zs[1] = {k.ops[4].sh[0]};
    const int32_t zorder[5] = {-1, -1, -1, -1, 0};
    M::TensorIterator<NoBuffer, 1, 5> wzp(M::Tensor<NoBuffer, 1>(zs), out, zorder, mask);
    uint32_t one[1] = {1};
    M::TensorIterator<NoBuffer, 1, 5> izp{M::Tensor<NoBuffer, 1>(one)};
    use_it<5>(k.ops[0], in); use_it<5>(k.ops[1], out); use_it<5>(k.ops[2], w);
    full_tile(k.ops[3]);
    k.ops[4].tmax[0] = k.ops[1].tmax[4]; finish_op(k.ops[4]);
    k.tiles = out.GetTotalCount();
    M::Conv2DConfig cfg(p[2], p[3], p[4], p[5], p[6], p[7], p[8], p[9], 1);
    k.compile = [=](Kern& self, const std::vector<OffsetBuffer>& b, Bytes& priv, uint32_t& n) {
        R::KernelsFactory f(g_pd);
        bool old = plain(self), old_it = ch(4) == 3, at = attach_tensors(self);
        compile_with(f.Conv2d_CS_GetSize(), [&](void* m) {
                if (old) return f.Conv2d_CS(m, ten<4>(no_group(self.ops[0])), ten<5>(self.ops[2]), cfg, ten<4>(no_group(self.ops[1])));
                if (old_it) return f.Conv2d_CS(m, in, w, wzp, cfg, out);
                return f.Conv2d_CS(m, in, izp, w, wzp, cfg, out); },
            [&](M::Conv2d_CS* c) {
                room(c->GetInputBufferSize(), self.ops[0], "input"); room(c->GetOutputBufferSize(), self.ops[1], "output"); room(c->GetWeightsBufferSize(), self.ops[2], "weights");
                encode_conv<5>(c, self);
                if (at) { auto i = oten<4>(no_group(self.ops[0]), b[0]), o = oten<4>(no_group(self.ops[1]), b[1]); OffsetBuffer x = b[2], y = b[3], z = b[4], ct = kCtrl; return c->AttachBufferOffsets(i, o, x, y, z, ct); }
                return c->AttachBufferOffsets(b[0], b[1], b[2], b[3], b[4], kCtrl); }, priv, n);
    };
    k.io = [](const Kern&, ExecutionInterface* e, uint32_t, std::vector<View>& v) {
        auto* o = dynamic_cast<R::Conv2d*>(e);
        if (!o) violation("wrong-object", "Create returned an object of another kernel");
        o->GetIOSizesAndOffsets(v[0].sz, v[1].sz, v[2].sz, v[0].of, v[1].of, v[2].of);
        v[3].sz[0] = 1; v[3].of[0] = 0;
        v[4].sz[0] = v[2].sz[4]; v[4].of[0] = v[2].of[4];
    };
    return k;
}
static Problem gen_conv() {
    Problem P; P.name = "conv2d"; P.make = make_conv;
    Sp h = gen_axis(true), w = gen_axis(true);
    if (!axis_ok(h) || !axis_ok(w)) discard("padding larger than output");
    int ci = (int)lng(range(1, 4)), co = (int)lng(range(1, 7));
    if ((long)h.out * w.out * h.k * w.k * ci * co > (g_huge ? 800000 : 150000)) discard("too much work");
    Rng r(data_seed()); bool g = ch(3) == 2;
    P.ops = {mk("input", IN, {1, (uint32_t)h.in, (uint32_t)w.in, 1, (uint32_t)ci}, 1, r, g), mk("output", OUT, {1, (uint32_t)h.out, (uint32_t)w.out, 1, (uint32_t)co}, 4, r, g),
             mk("weights", IN, {1, (uint32_t)h.k, (uint32_t)w.k, (uint32_t)ci, (uint32_t)co}, 1, r, g), mk("input zp", IN, {1}, 1, r, false), mk("weights zp", IN, {(uint32_t)co}, 1, r, false)};
    P.ops[3].early = true; uniform(P.ops[4]);
    int v[] = {h.k, w.k, h.s, w.s, h.pb, w.pb, h.pe, w.pe, h.d, w.d}; memcpy(P.p, v, sizeof v);
    P.tile[1] = axis_tile(h); P.tile[2] = axis_tile(w); P.tile[4] = pick_tile(co);
    return P;
}
static Kern make_dw(const Problem& P, const uint32_t* tile) {
    Kern k; k.name = P.name; k.ops = P.ops;
    for (int i = 0; i < 6; i++) k.tile[i] = tile[i];
    const int* p = P.p;
    auto out = grid_it<5>(k.ops[1], tile, tile[5]);
    uint32_t ek[5] = {1, (uint32_t)((p[0] - 1) * p[8] + 1), (uint32_t)((p[1] - 1) * p[9] + 1), 1, 1};
    uint32_t st[5] = {1, (uint32_t)p[2], (uint32_t)p[3], 1, 1};
    uint32_t pre[5] = {0, (uint32_t)p[4], (uint32_t)p[5], 0, 0};
    TI<5> in(ten<5>(k.ops[0]), out, ek, st, pre);
    const int32_t mask[5] = {1, 1, 1, 1, 0};
    const int32_t worder[5] = {-1, 0, 1, -1, 2};
    M::TensorIterator<NoBuffer, 3, 5> w(ten<3>(k.ops[2]), out, worder, mask);
    uint32_t zs[1] = {k.ops[4].sh[0]};
    const int32_t zorder[5] = {-1, -1, -1, -1, 0};
    M::TensorIterator<NoBuffer, 1, 5> wzp(M::Tensor<NoBuffer, 1>(zs), out, zorder, mask);
    uint32_t one[1] = {1};
    M::TensorIterator<NoBuffer, 1, 5> izp{M::Tensor<NoBuffer, 1>(one)};
    use_it<5>(k.ops[0], in); use_it<5>(k.ops[1], out);
    full_tile(k.ops[2]); k.ops[2].tmax[2] = k.ops[1].tmax[4]; finish_op(k.ops[2]);
    full_tile(k.ops[3]);
    k.ops[4].tmax[0] = k.ops[1].tmax[4]; finish_op(k.ops[4]);
    k.tiles = out.GetTotalCount();
    M::DwConv2DConfig cfg(p[2], p[3], p[4], p[5], p[6], p[7], p[8], p[9]);
    k.compile = [=](Kern& self, const std::vector<OffsetBuffer>& b, Bytes& priv, uint32_t& n) {
        R::KernelsFactory f(g_pd);
        bool old = plain(self), old_it = ch(4) == 3, at = attach_tensors(self);
        compile_with(f.DepthwiseConv2d_CS_GetSize(), [&](void* m) {
                if (old) return f.DepthwiseConv2d_CS(m, ten<4>(no_group(self.ops[0])), ten<3>(self.ops[2]), cfg, ten<4>(no_group(self.ops[1])));
                if (old_it) return f.DepthwiseConv2d_CS(m, in, w, wzp, cfg, out);
                return f.DepthwiseConv2d_CS(m, in, izp, w, wzp, cfg, out); },
            [&](M::DepthwiseConv2d_CS* c) {
                room(c->GetInputBufferSize(), self.ops[0], "input"); room(c->GetOutputBufferSize(), self.ops[1], "output"); room(c->GetWeightsBufferSize(), self.ops[2], "weights");
                encode_conv<3>(c, self);
                if (at) { auto i = oten<4>(no_group(self.ops[0]), b[0]), o = oten<4>(no_group(self.ops[1]), b[1]); OffsetBuffer x = b[2], y = b[3], z = b[4], ct = kCtrl; return c->AttachBufferOffsets(i, o, x, y, z, ct); }
                return c->AttachBufferOffsets(b[0], b[1], b[2], b[3], b[4], kCtrl); }, priv, n);
    };
    k.io = [](const Kern&, ExecutionInterface* e, uint32_t, std::vector<View>& v) {
        auto* o = dynamic_cast<R::DepthwiseConv2d*>(e);
        if (!o) violation("wrong-object", "Create returned an object of another kernel");
        o->GetIOSizesAndOffsets(v[0].sz, v[1].sz, v[2].sz, v[0].of, v[1].of, v[2].of);
        v[3].sz[0] = 1; v[3].of[0] = 0;
        v[4].sz[0] = v[2].sz[2]; v[4].of[0] = v[2].of[2];
    };
    return k;
}
static Problem gen_dw() {
    Problem P; P.name = "depthwise_conv2d"; P.make = make_dw;
    Sp h = gen_axis(true), w = gen_axis(true);
    if (!axis_ok(h) || !axis_ok(w)) discard("padding larger than output");
    int c = (int)lng(range(1, 7)), b = ch(4) == 0 ? range(2, 3) : 1;
    Rng r(data_seed()); bool g = ch(3) == 2;
    P.ops = {mk("input", IN, {(uint32_t)b, (uint32_t)h.in, (uint32_t)w.in, 1, (uint32_t)c}, 1, r, g), mk("output", OUT, {(uint32_t)b, (uint32_t)h.out, (uint32_t)w.out, 1, (uint32_t)c}, 4, r, g),
             mk("weights", IN, {(uint32_t)h.k, (uint32_t)w.k, (uint32_t)c}, 1, r, g), mk("input zp", IN, {1}, 1, r, false), mk("weights zp", IN, {(uint32_t)c}, 1, r, false)};
    P.ops[3].early = true; uniform(P.ops[4]);
    int v[] = {h.k, w.k, h.s, w.s, h.pb, w.pb, h.pe, w.pe, h.d, w.d}; memcpy(P.p, v, sizeof v);
    P.tile[0] = pick_tile(b); P.tile[1] = axis_tile(h); P.tile[2] = axis_tile(w); P.tile[4] = pick_tile(c);
    P.tile[5] = skewed(b, P.tile[0]);
    return P;
}
// Transposed convolution: the tiles are cut on the input side.
static Kern make_deconv(const Problem& P, const uint32_t* tile) {
    Kern k; k.name = P.name; k.ops = P.ops; k.grid = false;
    const int* p = P.p;                          // kh kw sh sw pt pl pb pr
    uint32_t ek[5] = {1, (uint32_t)p[0], (uint32_t)p[1], 1, k.ops[1].sh[4]};
    uint32_t st[5] = {1, (uint32_t)p[2], (uint32_t)p[3], 1, 1};
    uint32_t pre[5] = {0, (uint32_t)p[4], (uint32_t)p[5], 0, 0};
    uint32_t ti[5] = {tile[0], tile[1], tile[2], 1, k.ops[0].sh[4]};
    auto its = M::GetDeconvTensorIterators(ten<5>(k.ops[0]), ti, ten<5>(k.ops[1]), tile[4], ten<5>(k.ops[2]), ek, st, pre, kOrder);
    auto in = std::get<0>(its); auto w = std::get<1>(its); auto wzp = std::get<2>(its); auto out = std::get<3>(its);
    uint32_t one[1] = {1};
    M::TensorIterator<NoBuffer, 1, 5> izp{M::Tensor<NoBuffer, 1>(one)};
    use_it<5>(k.ops[0], in); use_it<5>(k.ops[1], out); use_it<5>(k.ops[2], w);
    full_tile(k.ops[3]);
    k.ops[4].tmax[0] = k.ops[1].tmax[4]; finish_op(k.ops[4]);
    k.tiles = out.GetTotalCount();
    M::TransposeConv2DConfig cfg(p[2], p[3], p[4], p[5], p[6], p[7]);
    k.compile = [=](Kern& self, const std::vector<OffsetBuffer>& b, Bytes& priv, uint32_t& n) {
        R::KernelsFactory f(g_pd);
        bool old_it = ch(4) == 3;
        compile_with(f.TransposeConv2D_CS_GetSize(), [&](void* m) { if (old_it) return f.TransposeConv2D_CS(m, in, w, wzp, cfg, out); return f.TransposeConv2D_CS(m, in, izp, w, wzp, cfg, out); },
            [&](M::TransposeConv2D_CS* c) { encode_conv<5>(c, self); return c->AttachBufferOffsets(b[0], b[1], b[2], b[3], b[4], kCtrl); }, priv, n);
    };
    k.io = [](const Kern&, ExecutionInterface* e, uint32_t, std::vector<View>& v) {
        auto* o = dynamic_cast<R::TransposeConv2D*>(e);
        if (!o) violation("wrong-object", "Create returned an object of another kernel");
        o->GetIOSizesAndOffsets(v[0].sz, v[1].sz, v[2].sz, v[0].of, v[1].of, v[2].of);
        v[3].sz[0] = 1; v[3].of[0] = 0;
        v[4].sz[0] = v[2].sz[4]; v[4].of[0] = v[2].of[4];
    };
    return k;
}
static Problem gen_deconv() {
    Problem P; P.name = "transpose_conv2d"; P.make = make_deconv;
    int k[2], s[2], pb[2], pe[2], in[2], out[2];
    for (int i = 0; i < 2; i++) {
        k[i] = range(1, 4); s[i] = range(1, k[i]); in[i] = (int)lng(range(k[i], 8), k[i]);
        pb[i] = ch(2) ? (int)ch(k[i]) : 0; pe[i] = ch(2) ? (int)ch(k[i]) : 0;
        out[i] = (in[i] - 1) * s[i] + k[i] - pb[i] - pe[i];
        if (out[i] < 1) discard("empty output");
    }
    int ci = (int)lng(range(1, 3)), co = (int)lng(range(1, 5));
    if ((long)out[0] * out[1] * k[0] * k[1] * ci * co > (g_huge ? 800000 : 150000)) discard("too much work");
    Rng r(data_seed()); bool g = ch(3) == 2;
    P.ops = {mk("input", IN, {1, (uint32_t)in[0], (uint32_t)in[1], 1, (uint32_t)ci}, 1, r, g), mk("output", OUT, {1, (uint32_t)out[0], (uint32_t)out[1], 1, (uint32_t)co}, 4, r, g),
             mk("weights", IN, {1, (uint32_t)k[0], (uint32_t)k[1], (uint32_t)ci, (uint32_t)co}, 1, r, g), mk("input zp", IN, {1}, 1, r, false), mk("weights zp", IN, {(uint32_t)co}, 1, r, false)};
    P.ops[3].early = true; uniform(P.ops[4]);
    int v[] = {k[0], k[1], s[0], s[1], pb[0], pb[1], pe[0], pe[1]}; memcpy(P.p, v, sizeof v);
    P.tile[1] = tile_from(k[0], in[0]); P.tile[2] = tile_from(k[1], in[1]); P.tile[4] = pick_tile(co);
    if (ch(3) == 0) P.tile[1] = in[0];
    if (ch(3) == 0) P.tile[2] = in[1];
    return P;
}
// ------------------------------------------------------------------------------------------------ pooling
static Kern make_pool(const Problem& P, const uint32_t* tile) {
    Kern k; k.name = P.name; k.ops = P.ops;
    for (int i = 0; i < 6; i++) k.tile[i] = tile[i];
    const int* p = P.p;
    auto out = grid_it<4>(k.ops[1], tile, tile[5]);
    uint32_t ek[4] = {1, (uint32_t)p[0], (uint32_t)p[1], 1}, st[4] = {1, (uint32_t)p[2], (uint32_t)p[3], 1}, pre[4] = {0, (uint32_t)p[4], (uint32_t)p[5], 0};
    TI<4> in(ten<4>(k.ops[0]), out, ek, st, pre);
    if (P.p[8]) {                                // the same tiling, laid out with a group axis that is dropped again
        Op i5 = with_group(k.ops[0]), o5 = with_group(k.ops[1]);
        uint32_t t5[5] = {tile[0], tile[1], tile[2], 1, tile[3]}, ek5[5] = {1, ek[1], ek[2], 1, 1}, st5[5] = {1, st[1], st[2], 1, 1}, pre5[5] = {0, pre[1], pre[2], 0, 0};
        auto out5 = grid_it<5>(o5, t5, tile[5]);
        TI<5> in5(ten<5>(i5), out5, ek5, st5, pre5);
        in = TI<4>(ten<4>(k.ops[0]), M::IteratorCfg<4>(in5.get_config(), 3)); out = TI<4>(ten<4>(k.ops[1]), M::IteratorCfg<4>(out5.get_config(), 3));
    }
    use_it<4>(k.ops[0], in); use_it<4>(k.ops[1], out);
    k.tiles = out.GetTotalCount();
    M::PoolOpConfig cfg(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7]);
    bool mx = p[10];
    k.compile = [=](Kern& self, const std::vector<OffsetBuffer>& b, Bytes& priv, uint32_t& n) {
        R::KernelsFactory f(g_pd);
        bool old = plain(self), at = attach_tensors(self);
        auto ti = ten<4>(self.ops[0]), to = ten<4>(self.ops[1]);
        auto oi = oten<4>(self.ops[0], b[0]), oo = oten<4>(self.ops[1], b[1]);
#define POOL(NAME) compile_with(f.NAME##_CS_GetSize(), [&](void* m) { return old ? f.NAME##_CS(m, ti, cfg, to) : f.NAME##_CS(m, in, cfg, out); }, \
            [&](M::NAME##_CS* c) { room(c->GetInputBufferSize(), self.ops[0], "input"); room(c->GetOutputBufferSize(), self.ops[1], "output"); return at ? c->AttachBufferOffsets(oi, oo, kCtrl) : c->AttachBufferOffsets(b[0], b[1], kCtrl); }, priv, n)
        if (mx) POOL(MaxPool2D); else POOL(SumPool2D);
#undef POOL
    };
    k.io = [mx](const Kern&, ExecutionInterface* e, uint32_t, std::vector<View>& v) {
        if (mx) { auto* o = dynamic_cast<R::MaxPool2D*>(e); if (!o) violation("wrong-object", "Create returned an object of another kernel"); o->GetIOSizesAndOffsets(v[0].sz, v[1].sz, v[0].of, v[1].of); }
        else { auto* o = dynamic_cast<R::SumPool2D*>(e); if (!o) violation("wrong-object", "Create returned an object of another kernel"); o->GetIOSizesAndOffsets(v[0].sz, v[1].sz, v[0].of, v[1].of); }
    };
    return k;
}
static Problem gen_pool(bool mx) {
    Problem P; P.name = mx ? "maxpool2d" : "sumpool2d"; P.make = make_pool;
    Sp h = gen_axis(false, 4), w = gen_axis(false, 4);
    if (!axis_ok(h) || !axis_ok(w)) discard("padding larger than output");
    int c = (int)lng(range(1, 6)), b = ch(4) == 0 ? range(2, 3) : 1;
    int ie = mx ? (ch(2) ? 2 : 1) : 1, oe = mx ? ie : 4;
    Rng r(data_seed()); bool g = ch(3) == 2;
    P.ops = {mk("input", IN, {(uint32_t)b, (uint32_t)h.in, (uint32_t)w.in, (uint32_t)c}, ie, r, g), mk("output", OUT, {(uint32_t)b, (uint32_t)h.out, (uint32_t)w.out, (uint32_t)c}, oe, r, g)};
    int v[] = {h.k, w.k, h.s, w.s, h.pb, w.pb, h.pe, w.pe, 0, 0, mx}; memcpy(P.p, v, sizeof v);
    P.tile[0] = pick_tile(b); P.tile[1] = axis_tile(h); P.tile[2] = axis_tile(w); P.tile[3] = pick_tile(c);
    P.tile[5] = skewed(b, P.tile[0]);
    P.p[8] = ch(4) == 3; if (P.p[8]) probe("iterators with an axis dropped");
    return P;
}
// ------------------------------------------------------------------------------------------------ element-wise
template <class RT> static void elt_io(ExecutionInterface* e, std::vector<View>& v) {
    auto* o = dynamic_cast<RT*>(e);
    if (!o) violation("wrong-object", "Create returned an object of another kernel");
    o->GetIOSizesAndOffsets(v[0].sz, v[1].sz, v[2].sz, v[0].of, v[1].of, v[2].of);
}
static Kern make_elt(const Problem& P, const uint32_t* tile) {
    Kern k; k.name = P.name; k.ops = P.ops;
    for (int i = 0; i < 6; i++) k.tile[i] = tile[i];
    int op = P.p[0];
    auto out = grid_it<4>(k.ops[2], tile, tile[5]);
    auto operand = [&](int i) {
        bool bc = false; int32_t mask[4];
        for (int d = 0; d < 4; d++) { mask[d] = k.ops[i].sh[d] != k.ops[2].sh[d]; bc |= mask[d]; }
        if (!bc && P.p[1]) return grid_it<4>(k.ops[i], tile, tile[5]);
        return TI<4>(ten<4>(k.ops[i]), out, nullptr, mask);
    };
    TI<4> l = operand(0), r = operand(1);
    use_it<4>(k.ops[2], out);
    for (int i = 0; i < 2; i++) { for (int d = 0; d < 4; d++) k.ops[i].tmax[d] = std::min(k.ops[i].sh[d], k.ops[2].tmax[d]); finish_op(k.ops[i]); }
    k.tiles = out.GetTotalCount();
#define E(NAME, N) if (op == N) { \
        k.compile = [=](Kern& self, const std::vector<OffsetBuffer>& b, Bytes& priv, uint32_t& n) { R::KernelsFactory f(g_pd); \
            bool old = plain(self), at = attach_tensors(self); auto& o = self.ops; \
            compile_with(f.NAME##_CS_GetSize(), [&](void* m) { return old ? f.NAME##_CS(m, ten<4>(o[0]), ten<4>(o[1]), ten<4>(o[2])) : f.NAME##_CS(m, l, r, out); }, \
                [&](M::NAME##_CS* c) { room(c->GetInputLeftBufferSize(), o[0], "left input"); room(c->GetInputRightBufferSize(), o[1], "right input"); room(c->GetOutputBufferSize(), o[2], "output"); \
                    return at ? c->AttachBufferOffsets(oten<4>(o[0], b[0]), oten<4>(o[1], b[1]), oten<4>(o[2], b[2]), kCtrl) : c->AttachBufferOffsets(b[0], b[1], b[2], kCtrl); }, priv, n); }; \
        k.io = [](const Kern&, ExecutionInterface* e, uint32_t, std::vector<View>& v) { elt_io<R::NAME>(e, v); }; }
    E(Add, 0) E(Sub, 1) E(Mul, 2) E(Max, 3) E(Min, 4)
#undef E
    return k;
}
static Problem gen_elt() {
    static const char* n[] = {"add", "sub", "mul", "max", "min"};
    Problem P; P.p[0] = (int)ch(5); P.name = n[P.p[0]]; P.make = make_elt; P.p[1] = (int)ch(2);
    std::vector<uint32_t> s(4), a(4), b(4);
    for (int d = 0; d < 4; d++) s[d] = lng(d == 0 ? range(1, ch(3) ? 2 : 4) : range(1, 6));
    a = b = s;
    if (ch(3) == 2) { auto& t = ch(2) ? a : b; for (int d = 0; d < 4; d++) t[d] = 1; }   // one operand may be a scalar
    int es = 1 << ch(3);
    if (P.p[0] == 2 && es == 4) es = 2;          // products: 8 or 16 bits to 32
    int oe = P.p[0] == 2 ? 4 : es;
    Rng r(data_seed()); bool g = ch(3) == 2;
    P.ops = {mk("left", IN, a, es, r, g), mk("right", IN, b, es, r, g), mk("output", OUT, s, oe, r, g)};
    for (int i = 0; i < 2; i++) P.ops[i].early = P.ops[i].sh[0] * P.ops[i].sh[1] * P.ops[i].sh[2] * P.ops[i].sh[3] == 1;
    for (int d = 0; d < 4; d++) P.tile[d] = pick_tile(s[d]);
    P.tile[5] = skewed(s[0], P.tile[0]);
    return P;
}
// ------------------------------------------------------------------------------------------------ clip, rescale, prelu
static Kern make_clip(const Problem& P, const uint32_t* tile) {
    Kern k; k.name = P.name; k.ops = P.ops;
    for (int i = 0; i < 6; i++) k.tile[i] = tile[i];
    auto out = grid_it<4>(k.ops[1], tile, tile[5]); auto in = grid_it<4>(k.ops[0], tile, tile[5]);
    use_it<4>(k.ops[0], in); use_it<4>(k.ops[1], out);
    k.tiles = out.GetTotalCount();
    k.ops[2].full = P.blob;
    Op oi = k.ops[0], oo = k.ops[1];
    std::vector<uint32_t> t(tile, tile + 6);
    k.compile = [=](Kern& self, const std::vector<OffsetBuffer>& b, Bytes& priv, uint32_t& n) {
        R::KernelsFactory f(g_pd);
        bool old = plain(self), at = attach_tensors(self);
        compile_with(f.Clip_CS_GetSize(), [&](void* m) { return old ? f.Clip_CS(m, ten<4>(self.ops[0]), ten<4>(self.ops[1])) : f.Clip_CS(m, in, out); },
            [&](M::Clip_CS* c) {
                room(c->GetInputBufferSize(), self.ops[0], "input"); room(c->GetOutputBufferSize(), self.ops[1], "output");
                if (self.ops[0].esz == 1 && encode()) {      // only 8-bit limits can be encoded
                    Buf lo = host(&self.ops[2].full[0], 1), hi = host(&self.ops[2].full[1], 1), e = encoded_buf(c->GetEncodedParamsSize());
                    auto tl = vec(lo, 1), th = vec(hi, 1); M::Buffer be(e.p, (uint32_t)e.n, 1);
                    must(c->EncodeParams(tl, th, be), "EncodeParams");
                    self.ops[2].full.assign(e.p, e.p + e.n);
                }
                return at ? c->AttachBufferOffsets(oten<4>(self.ops[0], b[0]), oten<4>(self.ops[1], b[1]), b[2], kCtrl) : c->AttachBufferOffsets(b[0], b[1], b[2], kCtrl); }, priv, n);
    };
    k.io = [=](const Kern&, ExecutionInterface*, uint32_t i, std::vector<View>& v) { grid_view(oi, t.data(), i, v[0], t[5]); grid_view(oo, t.data(), i, v[1], t[5]); };
    return k;
}
static Problem gen_clip() {
    Problem P; P.name = "clip"; P.make = make_clip;
    std::vector<uint32_t> s(4); for (int d = 0; d < 4; d++) s[d] = lng(d == 0 ? range(1, ch(3) ? 2 : 4) : range(1, 6));
    int es = ch(2) ? 4 : 1;
    Rng r(data_seed()); bool g = ch(3) == 2;
    P.ops = {mk("input", IN, s, es, r, g), mk("output", OUT, s, es, r, g), param("limits", 2 * es, es, true)};
    same_strides(P.ops[1], P.ops[0]);
    P.blob.resize(2 * es);
    if (es == 1) { int a = r.range(-128, 127), b = r.range(-128, 127); P.blob[0] = (uint8_t)std::min(a, b); P.blob[1] = (uint8_t)std::max(a, b); }
    else { int32_t a = (int32_t)r.next(), b = (int32_t)r.next(); int32_t v[2] = {std::min(a, b), std::max(a, b)}; memcpy(P.blob.data(), v, 8); }
    for (int d = 0; d < 4; d++) P.tile[d] = pick_tile(s[d]);
    P.tile[5] = skewed(s[0], P.tile[0]);
    return P;
}
static void put(Bytes& b, size_t at, const void* p, size_t n) { if (at + n > b.size()) violation("param-offset", "reported parameter offset %zu + %zu lies outside the %zu byte buffer", at, n, b.size()); memcpy(b.data() + at, p, n); }
static Kern make_rescale(const Problem& P, const uint32_t* tile) {
    Kern k; k.name = P.name; k.ops = P.ops;
    for (int i = 0; i < 6; i++) k.tile[i] = tile[i];
    auto out = grid_it<4>(k.ops[1], tile, tile[5]); auto in = grid_it<4>(k.ops[0], tile, tile[5]);
    use_it<4>(k.ops[0], in); use_it<4>(k.ops[1], out);
    k.tiles = out.GetTotalCount();
    int axis = P.p[0], ie = k.ops[0].esz, oe = k.ops[1].esz;
    uint32_t n_par = axis < 0 ? 1 : k.ops[1].sh[3], C = k.ops[1].sh[3];
    uint32_t pmax = axis < 0 ? 1 : k.ops[1].tmax[3];
    uint32_t ps[1] = {n_par};
    const int32_t order[4] = {-1, -1, -1, 0}, mask[4] = {1, 1, 1, 0};
    M::TensorIterator<NoBuffer, 1, 4> par = axis < 0 ? M::TensorIterator<NoBuffer, 1, 4>(M::Tensor<NoBuffer, 1>(ps)) : M::TensorIterator<NoBuffer, 1, 4>(M::Tensor<NoBuffer, 1>(ps), out, order, mask);
    // the compile-time check wants the size of the full set of parameters
    k.ops[2].tbytes = (size_t)n_par * (ie + 2 + 1 + oe); k.ops[2].early = axis < 0;
    (void)pmax; (void)C;
    k.ops[2].full = P.blob;
    Op oi = k.ops[0], oo = k.ops[1], op = k.ops[2];
    std::vector<uint32_t> t(tile, tile + 6);
    M::RescaleConfig cfg(axis);
    k.compile = [=](Kern& self, const std::vector<OffsetBuffer>& b, Bytes& priv, uint32_t& n) {
        R::KernelsFactory f(g_pd);
        compile_with(f.Rescale_CS_GetSize(), [&](void* m) { return f.Rescale_CS(m, in, cfg, par, out); },
            [&](M::Rescale_CS* c) {
                room(c->GetInputBufferSize(), self.ops[0], "input"); room(c->GetOutputBufferSize(), self.ops[1], "output"); need(c->GetEncodedParamsSize(), n_par * (ie + 3 + oe));
                if (encode()) {
                    const uint8_t* q = self.ops[2].full.data(); size_t m = n_par;
                    Buf ib = host(q, m * ie), sc = host(q + m * ie, m * 2), sh = host(q + m * (ie + 2), m), ob = host(q + m * (ie + 3), m * oe);
                    Buf e = encoded_buf(m * (ie + 3 + oe)); M::Buffer be(e.p, (uint32_t)e.n, 1);
                    must(c->EncodeParams(vec(ib, ie), vec(sc, 2), vec(sh, 1), vec(ob, oe), be), "EncodeParams");
                    if (c->GetEncodedParamsSize() != e.n) violation("rescale/encoded-size", "rescale: the encoded parameters take %zu bytes, GetEncodedParamsSize reports %u", e.n, c->GetEncodedParamsSize());
                    self.ops[2].full.assign(e.p, e.p + e.n);
                }
                OffsetBuffer e(b[2].get_offset(), b[2].get_mem_idx(), c->GetEncodedParamsSize(), 1);
                return c->AttachBufferOffsets(b[0], b[1], e, kCtrl); }, priv, n);
    };
    k.io = [=](const Kern& self, ExecutionInterface* e, uint32_t i, std::vector<View>& v) {
        grid_view(oi, t.data(), i, v[0], t[5]); grid_view(oo, t.data(), i, v[1], t[5]);
        v[2].packed.assign(op.tbytes, 0xa5); const Bytes& prm = self.ops[2].full;
        uint32_t n = 1, o[4] = {0, (uint32_t)ie, (uint32_t)ie + 2, (uint32_t)ie + 3}, c0 = 0;
        if (e && axis >= 0) {
            auto* rs = dynamic_cast<R::Rescale*>(e);
            if (!rs) violation("wrong-object", "Create returned an object of another kernel");
            rs->GetIOSizesAndOffsets(n, o[0], o[1], o[2], o[3]);
            c0 = v[1].of[3];
            if (n < v[1].sz[3]) violation("param-size", "rescale: tile %u has %u channels but reports %u parameters", i, v[1].sz[3], n);
            if (c0 + n > n_par) violation("param-range", "rescale: tile %u starts at channel %u and reports %u parameters, there are %u", i, c0, n, (unsigned)n_par);
            n = v[1].sz[3];
        }
        // full set: [bias n*ie][scale n*2][shift n][out bias n*oe]
        size_t b0 = 0, b1 = (size_t)n_par * ie, b2 = b1 + n_par * 2, b3 = b2 + n_par;
        put(v[2].packed, o[0], prm.data() + b0 + c0 * ie, n * ie);
        put(v[2].packed, o[1], prm.data() + b1 + c0 * 2, n * 2);
        put(v[2].packed, o[2], prm.data() + b2 + c0, n);
        put(v[2].packed, o[3], prm.data() + b3 + c0 * oe, n * oe);
    };
    return k;
}
static Problem gen_rescale() {
    Problem P; P.name = "rescale"; P.make = make_rescale;
    std::vector<uint32_t> s(4); for (int d = 0; d < 4; d++) s[d] = lng(d == 0 ? range(1, ch(3) ? 2 : 4) : range(1, 6));
    static const int IE[] = {4, 1, 1, 4}, OE[] = {1, 1, 4, 4};
    int v = (int)ch(3);
    int ie = IE[v], oe = OE[v];
    P.p[0] = ch(2) ? 3 : -1;
    uint32_t n = P.p[0] < 0 ? 1 : s[3];
    Rng r(data_seed()); bool g = ch(3) == 2;
    P.ops = {mk("input", IN, s, ie, r, g), mk("output", OUT, s, oe, r, g), param("parameters", 0, 1, false)};
    same_strides(P.ops[1], P.ops[0]);
    if (ie == 4) for (size_t i = 0; i + 4 <= P.ops[0].full.size(); i += 4) { int32_t x = r.range(-200000, 200000); memcpy(&P.ops[0].full[i], &x, 4); }
    P.blob.resize((size_t)n * (ie + 3 + oe));
    uint8_t* q = P.blob.data();
    for (uint32_t i = 0; i < n; i++) { int32_t x = r.range(-100, 100); memcpy(q, &x, ie); q += ie; }
    for (uint32_t i = 0; i < n; i++) { int16_t x = (int16_t)r.range(0x2000, 0x7fff); memcpy(q, &x, 2); q += 2; }
    for (uint32_t i = 0; i < n; i++) *q++ = (uint8_t)r.range(10, ie == 4 ? 24 : 16);
    for (uint32_t i = 0; i < n; i++) { int32_t x = r.range(-60, 60); memcpy(q, &x, oe); q += oe; }
    for (int d = 0; d < 4; d++) P.tile[d] = pick_tile(s[d]);
    P.tile[5] = skewed(s[0], P.tile[0]);
    return P;
}
static Kern make_prelu(const Problem& P, const uint32_t* tile) {
    Kern k; k.name = P.name; k.ops = P.ops;
    for (int i = 0; i < 6; i++) k.tile[i] = tile[i];
    auto out = grid_it<5>(k.ops[1], tile, tile[5]); auto in = grid_it<5>(k.ops[0], tile, tile[5]);
    use_it<5>(k.ops[0], in); use_it<5>(k.ops[1], out);
    k.tiles = out.GetTotalCount();
    int axis = P.p[0];
    uint32_t n_par = axis < 0 ? 1 : k.ops[1].sh[4];
    k.ops[2].tbytes = (size_t)k.ops[1].sh[4] * 11;   // GetEncodedParamsSize, whatever the axis
    k.ops[2].full = P.blob;
    Op oi = k.ops[0], oo = k.ops[1], op = k.ops[2];
    std::vector<uint32_t> t(tile, tile + 6);
    M::PreluOpConfig cfg(axis);
    k.compile = [=](Kern& self, const std::vector<OffsetBuffer>& b, Bytes& priv, uint32_t& n) {
        R::KernelsFactory f(g_pd);
        bool old = axis >= 0 && plain(self);
        compile_with(f.Prelu_CS_GetSize(), [&](void* m) {
                if (old) return f.Prelu_CS(m, TI<4>(ten<4>(no_group(self.ops[0]))), cfg, TI<4>(ten<4>(no_group(self.ops[1]))), 1);
                return f.Prelu_CS(m, in, cfg, out); },
            [&](M::Prelu_CS* c) {
                need(c->GetEncodedParamsSize(), (size_t)n_par * 11);
                if (encode()) {
                    static const int w[6] = {4, 2, 2, 1, 1, 1};
                    Buf h[6]; size_t at = 0;
                    for (int j = 0; j < 6; j++) { h[j] = host(self.ops[2].full.data() + at, (size_t)n_par * w[j]); at += (size_t)n_par * w[j]; }
                    auto m = [](const Buf& x, int esz) { uint32_t s[2] = {1, (uint32_t)(x.n / esz)}; return M::Tensor<M::Buffer, 2>(M::Buffer(x.p, (uint32_t)x.n, (uint32_t)esz), s); };
                    auto t0 = m(h[0], 4), t1 = m(h[1], 2), t2 = m(h[2], 2), t3 = m(h[3], 1), t4 = m(h[4], 1), t5 = m(h[5], 1);
                    Buf e = encoded_buf(at); M::Buffer be(e.p, (uint32_t)e.n, 1);
                    must(c->EncodeParams(t0, t1, t2, t3, t4, t5, be), "EncodeParams");
                    self.ops[2].full.assign(e.p, e.p + e.n);
                }
                return c->AttachBufferOffsets(b[0], b[1], b[2], kCtrl); }, priv, n);
    };
    k.io = [=](const Kern& self, ExecutionInterface* e, uint32_t i, std::vector<View>& v) {
        grid_view(oi, t.data(), i, v[0], t[5]); grid_view(oo, t.data(), i, v[1], t[5]);
        v[2].packed.assign(op.tbytes, 0xa5); const Bytes& prm = self.ops[2].full;
        uint32_t n = 1, o[6] = {0, 4, 6, 8, 9, 10}, c0 = 0;
        if (e) {
            auto* rs = dynamic_cast<R::Prelu*>(e);
            if (!rs) violation("wrong-object", "Create returned an object of another kernel");
            rs->GetIOSizesAndOffsets(n, o[0], o[1], o[2], o[3], o[4], o[5]);
            c0 = axis < 0 ? 0 : v[1].of[4];
            if (n < v[1].sz[4]) violation("param-size", "prelu: tile %u has %u channels but reports %u parameters", i, v[1].sz[4], n);
            if (axis >= 0 && c0 + n > n_par) violation("param-range", "prelu: tile %u starts at channel %u and reports %u parameters, there are %u", i, c0, n, (unsigned)n_par);
            n = axis < 0 ? 1 : v[1].sz[4];
        }
        static const int w[6] = {4, 2, 2, 1, 1, 1};
        size_t at = 0;
        for (int j = 0; j < 6; j++) { put(v[2].packed, o[j], prm.data() + at + c0 * w[j], n * w[j]); at += (size_t)n_par * w[j]; }
    };
    return k;
}
static Problem gen_prelu() {
    Problem P; P.name = "prelu"; P.make = make_prelu;
    std::vector<uint32_t> s(5); for (int d = 0; d < 5; d++) s[d] = d == 3 ? 1 : lng(d == 0 ? range(1, ch(3) ? 2 : 4) : range(1, 6));
    P.p[0] = ch(2) ? 4 : -1;
    uint32_t n = P.p[0] < 0 ? 1 : s[4];
    Rng r(data_seed()); bool g = ch(3) == 2;
    P.ops = {mk("input", IN, s, 4, r, g), mk("output", OUT, s, 1, r, g), param("parameters", 0, 1, false)};
    for (size_t i = 0; i + 4 <= P.ops[0].full.size(); i += 4) { int32_t x = r.range(-200000, 200000); memcpy(&P.ops[0].full[i], &x, 4); }
    P.blob.resize((size_t)n * 11);
    uint8_t* q = P.blob.data();
    for (uint32_t i = 0; i < n; i++) { int32_t x = r.range(-100, 100); memcpy(q, &x, 4); q += 4; }
    for (uint32_t i = 0; i < 2 * n; i++) { int16_t x = (int16_t)r.range(0x2000, 0x7fff); memcpy(q, &x, 2); q += 2; }
    for (uint32_t i = 0; i < 2 * n; i++) *q++ = (uint8_t)r.range(15, 24);
    for (uint32_t i = 0; i < n; i++) *q++ = (uint8_t)r.range(-60, 60);
    for (int d = 0; d < 5; d++) P.tile[d] = pick_tile(s[d]);
    P.tile[5] = skewed(s[0], P.tile[0]);
    return P;
}
// ------------------------------------------------------------------------------------------------ FC, matmul
static Kern make_fc(const Problem& P, const uint32_t*) {
    Kern k; k.name = P.name; k.ops = P.ops; k.together = P.p[4] && !P.p[23];
    for (auto& o : k.ops) if (o.role != PARAM) full_tile(o);
    k.tile[0] = 1; k.tile[1] = k.ops[1].sh[1];
    Op in_o = k.ops[0], out_o = k.ops[1];
    Op w_o = in_o; w_o.rank = 2; w_o.sh[0] = P.p[0]; w_o.sh[1] = P.p[1]; w_o.st[0] = P.p[3]; w_o.st[1] = 1;
    TI<2> in(ten<2>(in_o)), out(ten<2>(out_o)), w(ten<2>(w_o));
    uint32_t zs[1] = {(uint32_t)P.p[2]};
    M::TensorIterator<NoBuffer, 1, 2> zp{M::Tensor<NoBuffer, 1>(zs)};
    k.ops[2].full = P.blob;
    k.compile = [=](Kern& self, const std::vector<OffsetBuffer>& b, Bytes& priv, uint32_t& n) {
        R::KernelsFactory f(g_pd); M::FullyConnectedConfig cfg;
        bool old = plain(self), at = attach_tensors(self);
        int nz = P.p[2]; size_t wn = P.blob.size() - 2 * nz;
        compile_with(f.FullyConnected_CS_GetSize(), [&](void* m) {
                uint32_t zsh[1] = {(uint32_t)nz};
                return old ? f.FullyConnected_CS(m, ten<2>(in_o), ten<2>(w_o), M::Tensor<NoBuffer, 1>(zsh), ten<2>(out_o)) : f.FullyConnected_CS(m, in, w, zp, cfg, out); },
            [&](M::FullyConnected_CS* c) {
                room(c->GetInputBufferSize(), in_o, "input"); room(c->GetOutputBufferSize(), out_o, "output"); room(c->GetWeightsBufferSize(), w_o, "weights");
                Bytes& blob = self.ops[2].full;
                uint32_t s[2] = {w_o.sh[0], w_o.sh[1]}; int32_t st[2] = {w_o.st[0], w_o.st[1]};
                Buf hw = host(blob.data(), wn); M::Tensor<M::Buffer, 2> tw(M::Buffer(hw.p, (uint32_t)hw.n, 1), s, st);
                Bytes z8; for (int i = 0; i < nz; i++) z8.push_back(blob[wn + 2 * i]);
                Buf hz = host(z8.data(), z8.size()); auto tz = vec(hz, 1);
                if (self.together) {
                    Buf e = encoded_buf(wn + nz); M::Buffer be(e.p, (uint32_t)e.n, 1);
                    M::TensorIterator<M::Buffer, 2, 2> wi(tw); M::TensorIterator<M::Buffer, 1, 2> zi(tz);
                    must(c->EncodeWeightsAndZeroPts(wi, zi, be), "EncodeWeightsAndZeroPts");
                    blob.assign(e.p, e.p + e.n); blob.resize(wn + 2 * nz, 0);
                } else if (encode()) {
                    Buf ew = encoded_buf(wn), ez = encoded_buf(2 * nz); M::Buffer bw(ew.p, (uint32_t)ew.n, 1), bz(ez.p, (uint32_t)ez.n, 2);
                    must(c->EncodeWeights(tw, bw), "EncodeWeights");
                    must(c->EncodeWtsZeroPts(tz, bz), "EncodeWtsZeroPts");
                    blob.assign(ew.p, ew.p + ew.n); blob.insert(blob.end(), ez.p, ez.p + ez.n);
                }
                if (at) return c->AttachBufferOffsets(oten<2>(in_o, b[0]), oten<2>(out_o, b[1]), OffsetBuffer(b[2].get_offset(), b[2].get_mem_idx(), (uint32_t)wn, 1),
                                                     OffsetBuffer(b[2].get_offset() + (uint32_t)wn, b[2].get_mem_idx(), 2 * nz, 2), kCtrl);
                return c->AttachBufferOffsets(b[0], b[1], b[2], kCtrl); }, priv, n);
    };
    k.io = [=](const Kern&, ExecutionInterface*, uint32_t , std::vector<View>& v) { whole_view(v[0], in_o); whole_view(v[1], out_o); };
    return k;
}
static Problem gen_fc() {
    Problem P; P.name = "fully_connected"; P.make = make_fc;
    int ic = (int)lng(range(1, 12)), oc = (int)lng(range(1, 9)); int nz = ch(2) ? oc : 1; int gap = ch(3) == 2 ? (int)ch(4) : 0;
    P.p[0] = ic; P.p[1] = oc; P.p[2] = nz; P.p[3] = oc + gap;
    Rng r(data_seed());
    size_t wn = (size_t)(ic - 1) * (oc + gap) + oc;
    P.ops = {mk("input", IN, {1, (uint32_t)ic}, 1, r, false), mk("output", OUT, {1, (uint32_t)oc}, 4, r, false), param("weights", wn + 2 * nz, 1, true)};
    P.blob.resize(wn + 2 * nz);
    for (size_t i = 0; i < wn; i++) P.blob[i] = (uint8_t)r.next();
    P.p[4] = ch(4) == 3; bool zero = P.p[4] && ch(2);
    for (int i = 0; i < nz; i++) { int16_t z = zero ? 0 : (int16_t)r.range(-128, 127); memcpy(&P.blob[wn + 2 * i], &z, 2); }
    if (P.p[4] && !zero) P.name = "fully_connected with encoded zero points";
    P.tile[0] = 1; P.tile[1] = oc;
    return P;
}
static Kern make_matmul(const Problem& P, const uint32_t* tile) {
    Kern k; k.name = P.name; k.ops = P.ops;
    for (int i = 0; i < 6; i++) k.tile[i] = tile[i];
    auto out = grid_it<2>(k.ops[2], tile, tile[5]);
    const int32_t lm[2] = {0, 1}, rm[2] = {1, 0};
    TI<2> l(ten<2>(k.ops[0]), out, nullptr, lm), r(ten<2>(k.ops[1]), out, nullptr, rm);
    use_it<2>(k.ops[2], out);
    full_tile(k.ops[0]); full_tile(k.ops[1]);
    k.ops[0].tmax[0] = k.ops[2].tmax[0]; finish_op(k.ops[0]);
    k.ops[1].tmax[1] = k.ops[2].tmax[1]; finish_op(k.ops[1]);
    k.tiles = out.GetTotalCount();
    k.ops[3].full = P.blob;
    k.compile = [=](Kern& self, const std::vector<OffsetBuffer>& b, Bytes& priv, uint32_t& n) {
        R::KernelsFactory f(g_pd);
        compile_with(f.MatMul_CS_GetSize(), [&](void* m) { return f.MatMul_CS(m, l, r, out); }, [&](M::MatMul_CS* c) {
                if (encode()) {
                    Buf x = host(&self.ops[3].full[0], 1), y = host(&self.ops[3].full[1], 1), e = encoded_buf(2); M::Buffer be(e.p, 2, 1);
                    must(c->EncodeParams(M::Buffer(x.p, 1, 1), M::Buffer(y.p, 1, 1), be), "EncodeParams");
                    self.ops[3].full.assign(e.p, e.p + e.n);
                }
                return c->AttachBufferOffsets(b[0], b[1], b[2], b[3], kCtrl); }, priv, n);
    };
    k.io = [=](const Kern&, ExecutionInterface* e, uint32_t, std::vector<View>& v) {
        auto* o = dynamic_cast<R::MatMul*>(e);
        if (!o) violation("wrong-object", "Create returned an object of another kernel");
        o->GetIOSizesAndOffsets(v[0].sz, v[1].sz, v[2].sz, v[0].of, v[1].of, v[2].of);
    };
    return k;
}
static Problem gen_matmul() {
    Problem P; P.name = "matmul"; P.make = make_matmul;
    uint32_t m = lng(range(1, 8)), n = lng(range(1, 8)), q = lng(range(1, 8));
    Rng r(data_seed()); bool g = ch(3) == 2;
    P.ops = {mk("left", IN, {m, q}, 1, r, g), mk("right", IN, {q, n}, 1, r, g), mk("output", OUT, {m, n}, 4, r, g), param("biases", 2, 1, true)};
    P.blob = {(uint8_t)r.next(), (uint8_t)r.next()};
    P.tile[0] = pick_tile(m); P.tile[1] = pick_tile(n);
    P.tile[5] = skewed(m, P.tile[0]);
    return P;
}
// ------------------------------------------------------------------------------------------------ reduce, permute, move
template <class RT> static void io2(ExecutionInterface* e, std::vector<View>& v) {
    auto* o = dynamic_cast<RT*>(e);
    if (!o) violation("wrong-object", "Create returned an object of another kernel");
    o->GetIOSizesAndOffsets(v[0].sz, v[1].sz, v[0].of, v[1].of);
}
static Kern make_reduce(const Problem& P, const uint32_t* tile) {
    Kern k; k.name = P.name; k.ops = P.ops;
    int axis = P.p[0]; bool mx = P.p[1];
    for (int i = 0; i < 6; i++) k.tile[i] = tile[i];
    auto out = grid_it<4>(k.ops[1], tile, tile[5]);
    uint32_t t[4]; for (int i = 0; i < 4; i++) t[i] = i == axis ? k.ops[0].sh[i] : tile[i];
    auto in = grid_it<4>(k.ops[0], t, tile[5]);
    use_it<4>(k.ops[0], in); use_it<4>(k.ops[1], out);
    k.tiles = out.GetTotalCount();
    M::ReduceOpConfig cfg(axis);
    k.compile = [=](Kern& self, const std::vector<OffsetBuffer>& b, Bytes& priv, uint32_t& n) {
        R::KernelsFactory f(g_pd);
        if (mx) compile_with(f.ReduceMax_CS_GetSize(), [&](void* m) { return f.ReduceMax_CS(m, in, cfg, out); }, [&](M::ReduceMax_CS* c) { return c->AttachBufferOffsets(b[0], b[1], kCtrl); }, priv, n);
        else compile_with(f.ReduceSum_CS_GetSize(), [&](void* m) { return f.ReduceSum_CS(m, in, cfg, out); }, [&](M::ReduceSum_CS* c) { return c->AttachBufferOffsets(b[0], b[1], kCtrl); }, priv, n);
    };
    k.io = [mx](const Kern&, ExecutionInterface* e, uint32_t, std::vector<View>& v) { if (mx) io2<R::ReduceMax>(e, v); else io2<R::ReduceSum>(e, v); };
    return k;
}
static Problem gen_reduce(bool mx) {
    Problem P; P.name = mx ? "reduce_max" : "reduce_sum"; P.make = make_reduce;
    P.p[0] = (int)ch(4); P.p[1] = mx;
    std::vector<uint32_t> s(4); for (int d = 0; d < 4; d++) s[d] = lng(range(1, 5));
    auto o = s; o[P.p[0]] = 1;
    int es = 1 << ch(3);
    Rng r(data_seed()); bool g = ch(3) == 2;
    P.ops = {mk("input", IN, s, es, r, g), mk("output", OUT, o, es, r, g)};
    if (!mx) {                                   // sums have to fit the type
        Op& in = P.ops[0]; int n = std::max(5, (int)s[P.p[0]]), lim = es == 1 ? 127 / n : es == 2 ? 32500 / n : 2000000000 / n;
        for (size_t i = 0; i + es <= in.full.size(); i += es) { int32_t x = r.range(-lim, lim); memcpy(&in.full[i], &x, es); }
    }
    for (int d = 0; d < 4; d++) P.tile[d] = d == P.p[0] ? 1 : pick_tile(s[d]);
    if (P.p[0]) P.tile[5] = skewed(s[0], P.tile[0]);
    return P;
}
static Kern make_permute(const Problem& P, const uint32_t* tile) {
    Kern k; k.name = P.name; k.ops = P.ops;
    for (int i = 0; i < 6; i++) k.tile[i] = tile[i];
    auto out = grid_it<4>(k.ops[1], tile);
    uint32_t t[4]; uint8_t perm[4];
    for (int i = 0; i < 4; i++) { perm[i] = (uint8_t)P.p[i]; t[perm[i]] = tile[i]; }
    auto in = grid_it<4>(k.ops[0], t);
    use_it<4>(k.ops[0], in); use_it<4>(k.ops[1], out);
    k.tiles = out.GetTotalCount();
    M::PermuteOpConfig cfg(perm);
    k.compile = [=](Kern& self, const std::vector<OffsetBuffer>& b, Bytes& priv, uint32_t& n) {
        R::KernelsFactory f(g_pd);
        compile_with(f.Permute_CS_GetSize(), [&](void* m) { return f.Permute_CS(m, in, cfg, out); }, [&](M::Permute_CS* c) { return c->AttachBufferOffsets(b[0], b[1], kCtrl); }, priv, n);
    };
    k.io = [](const Kern&, ExecutionInterface* e, uint32_t, std::vector<View>& v) { io2<R::Permute>(e, v); };
    return k;
}
static Problem gen_permute() {
    Problem P; P.name = "permute"; P.make = make_permute;
    int pm[4] = {0, 1, 2, 3};
    for (int i = 3; i > 0; i--) std::swap(pm[i], pm[ch(i + 1)]);
    std::vector<uint32_t> s(4), o(4); for (int d = 0; d < 4; d++) s[d] = lng(range(1, 5));
    for (int d = 0; d < 4; d++) { o[d] = s[pm[d]]; P.p[d] = pm[d]; }
    int es = ch(2) ? 4 : 1;
    Rng r(data_seed()); bool g = ch(3) == 2;
    P.ops = {mk("input", IN, s, es, r, g), mk("output", OUT, o, es, r, g)};
    // both iterators advance in their own dimension order: dimensions that are tiled must keep theirs
    int last = -1;
    for (int d = 0; d < 4; d++) {
        P.tile[d] = o[d];
        if (pm[d] > last && o[d] > 1) { P.tile[d] = pick_tile(o[d]); if (P.tile[d] < o[d]) last = pm[d]; }
    }
    return P;
}
static Kern make_bcast(const Problem& P, const uint32_t* tile) {
    Kern k; k.name = P.name; k.ops = P.ops;
    for (int i = 0; i < 6; i++) k.tile[i] = tile[i];
    auto out = grid_it<4>(k.ops[1], tile, tile[5]);
    int32_t mask[4]; for (int d = 0; d < 4; d++) mask[d] = k.ops[0].sh[d] != k.ops[1].sh[d];
    TI<4> in(ten<4>(k.ops[0]), out, nullptr, mask);
    use_it<4>(k.ops[1], out);
    for (int d = 0; d < 4; d++) k.ops[0].tmax[d] = std::min(k.ops[0].sh[d], k.ops[1].tmax[d]);
    finish_op(k.ops[0]);
    k.tiles = out.GetTotalCount();
    k.compile = [=](Kern& self, const std::vector<OffsetBuffer>& b, Bytes& priv, uint32_t& n) {
        R::KernelsFactory f(g_pd);
        compile_with(f.MoveBroadcast_CS_GetSize(), [&](void* m) { return f.MoveBroadcast_CS(m, in, out, M::kMoveDataDirectionInput); },
            [&](M::MoveBroadcast_CS* c) { return c->AttachBufferOffsets(b[0], b[1], kCtrl); }, priv, n);
    };
    k.io = [](const Kern&, ExecutionInterface* e, uint32_t, std::vector<View>& v) { io2<R::MoveBroadcast>(e, v); };
    return k;
}
static Problem gen_bcast() {
    Problem P; P.name = "move_broadcast"; P.make = make_bcast;
    std::vector<uint32_t> s(4), i(4); for (int d = 0; d < 4; d++) { s[d] = lng(range(1, 5)); i[d] = ch(2) ? 1 : s[d]; }
    int es = 1 << ch(3);
    Rng r(data_seed()); bool g = ch(3) == 2;
    P.ops = {mk("input", IN, i, es, r, g), mk("output", OUT, s, es, r, g)};
    for (int d = 0; d < 4; d++) P.tile[d] = pick_tile(s[d]);
    P.tile[5] = skewed(s[0], P.tile[0]);
    return P;
}
// Move: both sides keep the whole tensor, or the destination is a buffer of one tile.
static Kern make_move(const Problem& P, const uint32_t* tile) {
    Kern k; k.name = P.name; k.ops = P.ops;
    int32_t order[5], count[5], inc[5], last[5], size[5];
    bool one = P.p[0];
    k.tiles = 1;
    for (int i = 0; i < 5; i++) {
        k.tile[i] = tile[i];
        order[i] = i; inc[i] = size[i] = (int32_t)tile[i];
        count[i] = (int32_t)((k.ops[0].sh[i] + tile[i] - 1) / tile[i]);
        last[i] = (int32_t)k.ops[0].sh[i] - (count[i] - 1) * inc[i];
        k.tiles *= count[i];
    }
    M::IteratorCfg<5> sc(order, count, inc, inc, last, size, size, size, 0), dc(order, count, inc, inc, last, size, size, size, one);
    auto ts = ten<5>(k.ops[0]), td = ten<5>(k.ops[1]);
    full_tile(k.ops[0]); k.ops[0].whole = true;
    if (one) {
        Op& o = k.ops[1]; o.own_bst = true; int32_t s = 1;
        for (int i = 4; i >= 0; i--) { o.bst[i] = s; s *= (int32_t)tile[i]; }
        o.tbytes = (size_t)s * o.esz;
    } else { full_tile(k.ops[1]); k.ops[1].whole = true; }
    Op oi = k.ops[0], oo = k.ops[1];
    std::vector<uint32_t> t(tile, tile + 6);
    k.compile = [=](Kern& self, const std::vector<OffsetBuffer>& b, Bytes& priv, uint32_t& n) {
        R::KernelsFactory f(g_pd);
        int how = (int)ch(2);
        compile_with(f.Move_CS_GetSize(), [&](void* m) {
                if (how) return f.Move_CS(m, ts, sc, td, dc, M::kMoveDataDirectionInput);
                return f.Move_CS(m, TI<5>(ts, sc), TI<5>(td, dc), M::kMoveDataDirectionInput); },
            [&](M::Move_CS* c) { return c->AttachBufferOffsets(b[0], b[1], kCtrl); }, priv, n);
    };
    k.io = [=](const Kern&, ExecutionInterface* e, uint32_t i, std::vector<View>& v) {
        if (e && !dynamic_cast<R::Move*>(e)) violation("wrong-object", "Create returned an object of another kernel");
        grid_view(oi, t.data(), i, v[0], t[5]); grid_view(oo, t.data(), i, v[1], t[5]);
    };
    return k;
}
static Problem gen_move() {
    Problem P; P.name = "move"; P.make = make_move; P.p[0] = (int)ch(2);
    std::vector<uint32_t> s(5); int rank = range(1, 4);
    for (int d = 0; d < 5; d++) s[d] = d < rank ? lng(range(1, 6)) : 1;
    int es = 1 << ch(3);
    Rng r(data_seed());
    P.ops = {mk("input", IN, s, es, r, ch(3) == 2), mk("output", OUT, s, es, r, ch(3) == 2)};
    for (int d = 0; d < 5; d++) P.tile[d] = pick_tile(s[d]);
    return P;
}
// ------------------------------------------------------------------------------------------------
struct Kind { const char* name; Problem (*gen)(); };
static Problem gen_maxpool() { return gen_pool(true); }
static Problem gen_sumpool() { return gen_pool(false); }
static Problem gen_rmax() { return gen_reduce(true); }
static Problem gen_rsum() { return gen_reduce(false); }
static const Kind kKinds[] = {
    {"conv2d", gen_conv}, {"depthwise", gen_dw}, {"deconv", gen_deconv}, {"maxpool", gen_maxpool}, {"sumpool", gen_sumpool}, {"eltwise", gen_elt},
    {"clip", gen_clip}, {"rescale", gen_rescale}, {"prelu", gen_prelu}, {"fc", gen_fc}, {"matmul", gen_matmul}, {"reduce_max", gen_rmax}, {"reduce_sum", gen_rsum},
    {"permute", gen_permute}, {"move_broadcast", gen_bcast}, {"move", gen_move},
};
int n_kinds() { return (int)(sizeof kKinds / sizeof *kKinds); }
const char* kind_name(int k) { return kKinds[k].name; }
int pick_kind() {
    int kind = (int)ch((uint32_t)n_kinds());
    if (getenv("SIM_KIND")) kind = atoi(getenv("SIM_KIND"));     // SIM_KIND: debugging aid
    return kind;
}
Problem gen_problem(int kind) {
    if (kind < 0) kind = pick_kind();
    return kKinds[kind].gen();
}
}
