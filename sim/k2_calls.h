// Random valid calls of the MLI 2.0 kernels and helpers, with every argument in guarded memory.
#pragma once
#include "tensors.h"
#include "mli_types.hpp"
#include "mli_ref_compiler_api.hpp"
#include <cmath>
#include <memory>

namespace snps_arc::metaware::mli::ref { void run_mli_resize_bilinear_standalone(const mli_tensor* in, const ResizeOpConfig& cfg, mli_tensor* out); }

namespace sim {

enum Kind { kConv, kDw, kGroup, kTrans, kPool, kFc, kRnn, kLstm, kGru, kRelu, kLeaky, kPrelu, kSigm, kSoftmax, kL2, kEltAS, kEltMul, kEltMM, kPermute, kArgmax, kConvert, kHelper, kResize };

struct Call {
    std::string name;
    Kind kind;
    std::vector<Ten> t;                        // tensors in argument order, the output last
    std::vector<mli_tensor*> a;                // the pointers really passed (C14 replaces them)
    void* cfg = nullptr; size_t cfg_n = 0;
    const mli_lut *lut1 = nullptr, *lut2 = nullptr;
    Buf scratch; int cell = -1;                // scratch memory; index of the in/out cell tensor
    int orank = 0; uint32_t oshape[4]; int32_t ostride[4];   // elements the result occupies
    std::function<mli_status(Call&)> f;
    int n_in = 1;                              // rnn dense: number of inputs
    bool in_place_ok = false;
    bool nodata = false, nodesc = false;       // no output elements / no output descriptor
    std::vector<std::pair<void*, size_t>> extra;  // further result bytes
    int ty = 0;                                // 0 fx16, 1 fx16*fx8, 2 sa8, 3 fx8
    mli_status st = MLI_STATUS_OK;

    Ten& out() { return t.back(); }
    mli_status run() { context(name); st = f(*this); return st; }
};
typedef std::shared_ptr<Call> CallP;

// ------------------------------------------------------------------ building blocks
inline Ten mk(const std::string& name, mli_element_type ty, int rank, const uint32_t* shape, bool contiguous = false, size_t extra_bytes = 0) {
    Ten T;
    T.t = boxed<mli_tensor>((name + " descriptor").c_str());
    T.t->rank = rank; T.t->el_type = ty;
    for (int i = 0; i < rank; i++) T.t->shape[i] = shape[i];
    make_strides(rank, T.t->shape, T.t->mem_stride, !contiguous && chance(2, 3), false);
    size_t n = span_elems(rank, T.t->shape, T.t->mem_stride) * el_size(ty);
    if (n < extra_bytes) n = extra_bytes;
    T.data = alloc(n, (name + " data").c_str(), -1, 4);
    fill(T.data, data_seed());
    if (ty == MLI_EL_SA_32) for (size_t i = 0; i + 4 <= n; i += 4) { int32_t v; memcpy(&v, T.data.p + i, 4); v /= 1 << 14; memcpy(T.data.p + i, &v, 4); }
    if (ty == MLI_EL_FP_32) for (size_t i = 0; i + 4 <= n; i += 4) { int32_t v; memcpy(&v, T.data.p + i, 4); float x = (float)v / (1 << 28); memcpy(T.data.p + i, &x, 4); }
    if (chance(1, 3)) {                        // small values: saturated results hide differences
        int sh = range(1, 3);
        if (el_size(ty) == 1) for (size_t i = 0; i < n; i++) T.data.p[i] = (uint8_t)((int8_t)T.data.p[i] >> sh);
        if (ty == MLI_EL_FX_16) for (size_t i = 0; i + 2 <= n; i += 2) { int16_t v; memcpy(&v, T.data.p + i, 2); v = (int16_t)(v >> (2 * sh)); memcpy(T.data.p + i, &v, 2); }
    }
    T.t->data.mem.pi8 = (int8_t*)T.data.p; T.t->data.capacity = (uint32_t)n;
    memset(&T.t->el_params, 0, sizeof T.t->el_params);
    if (ty == MLI_EL_SA_8 || ty == MLI_EL_SA_32) set_scalar_sa(T.t, 0, 1 << 14, 14);
    return T;
}
// Rank-0 tensor or one-element tensor.
inline Ten mk_scalar(const std::string& name, mli_element_type ty, int rank_hint, bool allow_rank0 = true) {
    uint32_t one[4] = {1, 1, 1, 1};
    if (!allow_rank0 || flip()) return mk(name, ty, rank_hint < 1 ? 1 : rank_hint, one);
    Ten T = mk(name, ty, 1, one);
    T.t->rank = 0;
    int32_t v = 0; memcpy(&v, T.data.p, el_size(ty)); if (el_size(ty) == 2) v = (int16_t)v; if (el_size(ty) == 1) v = (int8_t)v;
    memset(&T.t->data, 0, sizeof T.t->data);
    if (el_size(ty) == 2) T.t->data.mem.i16 = (int16_t)v; else if (el_size(ty) == 1) T.t->data.mem.i8 = (int8_t)v; else T.t->data.mem.i32 = v;
    return T;
}
inline mli_element_type el_of(int ty, int role) {      // role 0 in/out, 1 weights, 2 bias
    if (ty == 2) return role == 2 ? MLI_EL_SA_32 : MLI_EL_SA_8;
    if (ty == 1 && role) return MLI_EL_FX_8;
    if (ty == 3) return MLI_EL_FX_8;
    return MLI_EL_FX_16;
}
inline void sa_simple(Ten& T, int zp_lo = -128, int zp_hi = 127, int frac_lo = 12, int frac_hi = 16) {
    set_scalar_sa(T.t, (int16_t)range(zp_lo, zp_hi), (int16_t)range(1 << 14, 32767), (int8_t)range(frac_lo, frac_hi));
}
// Quantisation of a multiply-accumulate kernel; axis < 0: per tensor.
inline void quant_mac(int ty, Ten& in, Ten& w, Ten& b, Ten* out, int macs, int waxis, int baxis, const std::string& nm) {
    int lg = 0; while ((1 << (2 * lg)) < macs) lg++;
    if (ty != 2) {
        int fi, fw, sh;
        if (ty == 0) { fi = range(10, 13); fw = range(10, 13); sh = 15 + lg + range(0, 2); }
        else { fi = range(8, 12); fw = range(4, 7); sh = 7 + lg + range(0, 2); }
        in.t->el_params.fx.frac_bits = (int8_t)fi; w.t->el_params.fx.frac_bits = (int8_t)fw;
        b.t->el_params.fx.frac_bits = (int8_t)std::max(0, fi + fw - range(0, 10));
        if (out) out->t->el_params.fx.frac_bits = (int8_t)std::max(0, fi + fw - sh);
        return;
    }
    int fi = 20, fw = 20;
    int16_t si = (int16_t)range(1 << 14, 32767);
    set_scalar_sa(in.t, (int16_t)range(-128, 127), si, (int8_t)fi);
    if (out) set_scalar_sa(out->t, (int16_t)range(-128, 127), (int16_t)range(1 << 14, 32767), (int8_t)(fi + fw - 22 - lg - range(0, 2)));
    auto bs = [&](int16_t sw) { int64_t p = (int64_t)si * sw; return (int16_t)((p + (1 << 14)) >> 15); };
    if (waxis < 0) {
        int16_t sw = (int16_t)range(1 << 14, 32767);
        set_scalar_sa(w.t, 0, sw, (int8_t)fw);
        set_scalar_sa(b.t, 0, bs(sw), (int8_t)(fi + fw - 15));
    } else {
        int n = (int)w.t->shape[waxis];
        set_axis_sa(w, waxis, n, (nm + ".w").c_str());
        set_axis_sa(b, baxis, n, (nm + ".b").c_str());
        Rng r(data_seed());
        for (int i = 0; i < n; i++) {
            int16_t sw = (int16_t)r.range(1 << 14, 32767), z = 0, sb = bs(sw);
            int8_t f = (int8_t)(fw + r.range(-1, 1)), fb = (int8_t)(fi + f - 15);
            memcpy(w.scale.p + 2 * i, &sw, 2); memcpy(w.zp.p + 2 * i, &z, 2); w.frac.p[i] = (uint8_t)f;
            memcpy(b.scale.p + 2 * i, &sb, 2); memcpy(b.zp.p + 2 * i, &z, 2); b.frac.p[i] = (uint8_t)fb;
        }
    }
}
inline mli_relu_type pick_relu() { return (mli_relu_type)ch(4); }
inline void finish(CallP c) {
    c->a.clear();
    for (auto& x : c->t) c->a.push_back(x.t);
    mli_tensor* o = c->out().t;
    if (!c->orank) { c->orank = (int)o->rank; for (int i = 0; i < 4; i++) { c->oshape[i] = o->shape[i]; c->ostride[i] = o->mem_stride[i]; } }
}
template <class T> T* mkcfg(CallP c, const char* nm) { T* p = boxed<T>(nm); c->cfg = p; c->cfg_n = sizeof(T); return p; }

// ------------------------------------------------------------------ look-up tables
struct Luts { mli_lut *tanh = nullptr, *sigm = nullptr, *softmax = nullptr, *l2 = nullptr; };
inline Luts& luts() { static Luts l; return l; }
inline mli_lut* make_lut(const char* nm, int32_t (*size)(), mli_status (*create)(mli_lut*)) {
    mli_lut* l = boxed<mli_lut>(nm);
    int32_t n = size();
    Buf b = alloc((size_t)n, (std::string(nm) + " data").c_str(), -1, 4);
    l->data.mem.pi16 = (int16_t*)b.p; l->data.capacity = (uint32_t)n;
    context(nm);
    if (create(l) != MLI_STATUS_OK) violation("create-lut", "%s: creating the look-up table failed", nm);
    return l;
}
inline const mli_lut* lut_tanh() { Luts& l = luts(); if (!l.tanh) l.tanh = make_lut("tanh lut", mli_krn_tanh_get_lut_size, mli_krn_tanh_create_lut); return l.tanh; }
inline const mli_lut* lut_sigm() { Luts& l = luts(); if (!l.sigm) l.sigm = make_lut("sigm lut", mli_krn_sigm_get_lut_size, mli_krn_sigm_create_lut); return l.sigm; }
inline const mli_lut* lut_softmax() { Luts& l = luts(); if (!l.softmax) l.softmax = make_lut("softmax lut", mli_krn_softmax_get_lut_size, mli_krn_softmax_create_lut); return l.softmax; }
inline const mli_lut* lut_l2() { Luts& l = luts(); if (!l.l2) l.l2 = make_lut("l2 lut", mli_krn_l2_normalize_get_lut_size, mli_krn_l2_normalize_create_lut); return l.l2; }

// ------------------------------------------------------------------ kernel tables
typedef mli_status (*ConvF)(const mli_tensor*, const mli_tensor*, const mli_tensor*, const mli_conv2d_cfg*, mli_tensor*);
struct ConvE { const char* n; ConvF f; int ty; int k; };
#define SIM_C3(base, suf, k) {#base "_fx16" #suf, base##_fx16##suf, 0, k}, {#base "_fx16_fx8_fx8" #suf, base##_fx16_fx8_fx8##suf, 1, k}, {#base "_sa8_sa8_sa32" #suf, base##_sa8_sa8_sa32##suf, 2, k}
static const ConvE kConvs[] = {SIM_C3(mli_krn_conv2d_hwcn, , 0), SIM_C3(mli_krn_conv2d_hwcn, _k1x1, 1), SIM_C3(mli_krn_conv2d_hwcn, _k3x3, 3), SIM_C3(mli_krn_conv2d_hwcn, _k5x5, 5)};
static const ConvE kDws[] = {SIM_C3(mli_krn_depthwise_conv2d_hwcn, , 0), SIM_C3(mli_krn_depthwise_conv2d_hwcn, _k3x3, 3), SIM_C3(mli_krn_depthwise_conv2d_hwcn, _k5x5, 5)};
static const ConvE kGroups[] = {SIM_C3(mli_krn_group_conv2d_hwcn, , 0), SIM_C3(mli_krn_group_conv2d_hwcn, _k3x3, 3), SIM_C3(mli_krn_group_conv2d_hwcn, _k5x5, 5)};
static const ConvE kTranss[] = {SIM_C3(mli_krn_transpose_conv2d_hwcn, , 0), SIM_C3(mli_krn_transpose_conv2d_hwcn, _k2x2_str2, 2), SIM_C3(mli_krn_transpose_conv2d_hwcn, _k4x4_str2, 4)};
typedef mli_status (*PoolF)(const mli_tensor*, const mli_pool_cfg*, mli_tensor*);
struct PoolE { const char* n; PoolF f; int ty; int k; };
#define SIM_P3(base, suf, k) {#base "_sa8" #suf, base##_sa8##suf, 2, k}, {#base "_fx8" #suf, base##_fx8##suf, 3, k}, {#base "_fx16" #suf, base##_fx16##suf, 0, k}
static const PoolE kPools[] = {SIM_P3(mli_krn_avepool_hwc, , 0), SIM_P3(mli_krn_avepool_hwc, _k2x2, 2), SIM_P3(mli_krn_avepool_hwc, _k3x3, 3),
                               SIM_P3(mli_krn_maxpool_hwc, , 0), SIM_P3(mli_krn_maxpool_hwc, _k2x2, 2), SIM_P3(mli_krn_maxpool_hwc, _k3x3, 3)};
typedef mli_status (*EltF)(const mli_tensor*, const mli_tensor*, mli_tensor*);
struct EltE { const char* n; EltF f; int ty; Kind k; };
#define SIM_E3(op, k) {"mli_krn_eltwise_" #op "_fx8", mli_krn_eltwise_##op##_fx8, 3, k}, {"mli_krn_eltwise_" #op "_fx16", mli_krn_eltwise_##op##_fx16, 0, k}, {"mli_krn_eltwise_" #op "_sa8", mli_krn_eltwise_##op##_sa8, 2, k}
static const EltE kElts[] = {SIM_E3(add, kEltAS), SIM_E3(sub, kEltAS), SIM_E3(mul, kEltMul), SIM_E3(min, kEltMM), SIM_E3(max, kEltMM)};

template <class T, size_t N> const T& any(const T (&v)[N]) { return v[ch((uint32_t)N)]; }

inline void rshape(int rank, uint32_t* s, int maxd = 0, bool huge = false) { for (int i = 0; i < rank; i++) s[i] = longer(1 + ch(maxd ? maxd : rank == 1 ? 40 : rank == 2 ? 10 : 5), huge && rank == 1); }

// ------------------------------------------------------------------ generators
inline CallP gen_conv(const std::string& nm, Kind kind) {
    auto c = std::make_shared<Call>();
    const ConvE* e = kind == kConv ? &any(kConvs) : kind == kDw ? &any(kDws) : kind == kGroup ? &any(kGroups) : &any(kTranss);
    c->name = nm + ":" + e->n; c->kind = kind; c->ty = e->ty;
    auto* cfg = mkcfg<mli_conv2d_cfg>(c, (nm + ".cfg").c_str());
    int kh = e->k ? e->k : range(1, 4), kw = e->k ? e->k : range(1, 4);
    int dh = 1, dw = 1, sh = range(1, 3), sw = range(1, 3);
    int groups = 1, ci, co;
    if (kind == kTrans) { if (e->k) sh = sw = 2; else { sh = std::min(sh, kh); sw = std::min(sw, kw); } }
    else { dh = chance(1, 4) ? range(1, 3) : 1; dw = chance(1, 4) ? range(1, 3) : 1; }
    if (kind == kDw) { ci = co = (int)longer(range(1, 9)); }
    else if (kind == kGroup) { groups = range(1, 4); ci = groups * range(1, 3); co = groups * range(1, 3); }
    else { ci = (int)longer(range(1, 6)); co = (int)longer(range(1, 9)); }
    int eh = (kh - 1) * dh + 1, ew = (kw - 1) * dw + 1;
    bool pad = chance(2, 3);
    int pt = pad ? (int)ch(eh) : 0, pb = pad ? (int)ch(eh) : 0, pl = pad ? (int)ch(ew) : 0, pr = pad ? (int)ch(ew) : 0;
    int ih = (int)longer(range(1, 7)), iw = (int)longer(range(1, 7)), oh, ow;
    if (kind == kTrans) {
        oh = (ih - 1) * sh + 1 + 2 * (kh - 1) - pt - pb - kh + 1; ow = (iw - 1) * sw + 1 + 2 * (kw - 1) - pl - pr - kw + 1;
        if (oh < 1) { pt = pb = 0; oh = (ih - 1) * sh + 1 + 2 * (kh - 1) - kh + 1; }
        if (ow < 1) { pl = pr = 0; ow = (iw - 1) * sw + 1 + 2 * (kw - 1) - kw + 1; }
    } else {
        if (ih + pt + pb < eh) ih = eh - pt - pb;
        if (iw + pl + pr < ew) iw = ew - pl - pr;
        oh = (ih + pt + pb - eh) / sh + 1; ow = (iw + pl + pr - ew) / sw + 1;
    }
    if ((long)oh * ow * kh * kw * (kind == kDw ? 1 : ci / groups) * co > 150000) discard("too much work");
    cfg->relu.type = pick_relu(); cfg->stride_height = (uint8_t)sh; cfg->stride_width = (uint8_t)sw;
    cfg->padding_top = (uint8_t)pt; cfg->padding_bottom = (uint8_t)pb; cfg->padding_left = (uint8_t)pl; cfg->padding_right = (uint8_t)pr;
    cfg->dilation_height = (uint8_t)dh; cfg->dilation_width = (uint8_t)dw;
    uint32_t is[3] = {(uint32_t)ih, (uint32_t)iw, (uint32_t)ci}, os[3] = {(uint32_t)oh, (uint32_t)ow, (uint32_t)co};
    uint32_t ws[4] = {(uint32_t)kh, (uint32_t)kw, (uint32_t)(kind == kDw ? 1 : ci / groups), (uint32_t)co}, bs[1] = {(uint32_t)co};
    c->t = {mk(nm + ".in", el_of(c->ty, 0), 3, is), mk(nm + ".weights", el_of(c->ty, 1), 4, ws), mk(nm + ".bias", el_of(c->ty, 2), 1, bs, true), mk(nm + ".out", el_of(c->ty, 0), 3, os)};
    quant_mac(c->ty, c->t[0], c->t[1], c->t[2], &c->t[3], kh * kw * (int)ws[2], c->ty == 2 && flip() ? 3 : -1, 0, nm);
    ConvF f = e->f;
    c->f = [f](Call& x) { return f(x.a[0], x.a[1], x.a[2], (const mli_conv2d_cfg*)x.cfg, x.a[3]); };
    finish(c); return c;
}
inline CallP gen_pool(const std::string& nm) {
    auto c = std::make_shared<Call>();
    const PoolE& e = any(kPools);
    c->name = nm + ":" + e.n; c->kind = kPool; c->ty = e.ty;
    auto* cfg = mkcfg<mli_pool_cfg>(c, (nm + ".cfg").c_str());
    int kh = e.k ? e.k : range(1, 5), kw = e.k ? e.k : range(1, 5), sh = range(1, 3), sw = range(1, 3), ci = (int)longer(range(1, 9));
    bool pad = flip();
    int pt = pad ? (int)ch(kh) : 0, pb = pad ? (int)ch(kh) : 0, pl = pad ? (int)ch(kw) : 0, pr = pad ? (int)ch(kw) : 0;
    int ih = (int)longer(range(1, 8)), iw = (int)longer(range(1, 8));
    if (ih + pt + pb < kh) ih = kh - pt - pb;
    if (iw + pl + pr < kw) iw = kw - pl - pr;
    int oh = (ih + pt + pb - kh) / sh + 1, ow = (iw + pl + pr - kw) / sw + 1;
    cfg->kernel_height = (uint8_t)kh; cfg->kernel_width = (uint8_t)kw; cfg->stride_height = (uint8_t)sh; cfg->stride_width = (uint8_t)sw;
    cfg->padding_top = (uint8_t)pt; cfg->padding_bottom = (uint8_t)pb; cfg->padding_left = (uint8_t)pl; cfg->padding_right = (uint8_t)pr;
    uint32_t is[3] = {(uint32_t)ih, (uint32_t)iw, (uint32_t)ci}, os[3] = {(uint32_t)oh, (uint32_t)ow, (uint32_t)ci};
    c->t = {mk(nm + ".in", el_of(c->ty, 0), 3, is), mk(nm + ".out", el_of(c->ty, 0), 3, os)};
    if (c->ty == 2) { sa_simple(c->t[0]); c->t[1].t->el_params = c->t[0].t->el_params; if (flip()) sa_simple(c->t[1]); }
    else { c->t[0].t->el_params.fx.frac_bits = (int8_t)ch(8); c->t[1].t->el_params.fx.frac_bits = (int8_t)ch(8); }
    PoolF f = e.f;
    c->f = [f](Call& x) { return f(x.a[0], (const mli_pool_cfg*)x.cfg, x.a[1]); };
    finish(c); return c;
}
inline CallP gen_fc(const std::string& nm) {
    auto c = std::make_shared<Call>();
    typedef mli_status (*F)(const mli_tensor*, const mli_tensor*, const mli_tensor*, const mli_fully_connected_cfg*, mli_tensor*);
    static const struct { const char* n; F f; int ty; } k[] = {{"mli_krn_fully_connected_fx16", mli_krn_fully_connected_fx16, 0}, {"mli_krn_fully_connected_fx16_fx8_fx8", mli_krn_fully_connected_fx16_fx8_fx8, 1},
        {"mli_krn_fully_connected_sa8_sa8_sa32", mli_krn_fully_connected_sa8_sa8_sa32, 2}, {"mli_krn_fully_connected_sa8_sa8_sa32_ext_bias", mli_krn_fully_connected_sa8_sa8_sa32_ext_bias, 2}};
    auto& e = any(k);
    c->name = nm + ":" + e.n; c->kind = kFc; c->ty = e.ty;
    auto* cfg = mkcfg<mli_fully_connected_cfg>(c, (nm + ".cfg").c_str());
    cfg->relu.type = pick_relu();
    int rank = range(1, 3); uint32_t is[4], n = 1;
    rshape(rank, is); for (int i = 0; i < rank; i++) n *= is[i];
    uint32_t o = longer(1 + ch(14)), ws[2] = {n, o}, os[1] = {o};
    c->t = {mk(nm + ".in", el_of(c->ty, 0), rank, is, true), mk(nm + ".weights", el_of(c->ty, 1), 2, ws), mk(nm + ".bias", el_of(c->ty, 2), 1, os, true), mk(nm + ".out", el_of(c->ty, 0), 1, os, true)};
    quant_mac(c->ty, c->t[0], c->t[1], c->t[2], &c->t[3], (int)n, c->ty == 2 && flip() ? 1 : -1, 0, nm);
    F f = e.f;
    c->f = [f](Call& x) { return f(x.a[0], x.a[1], x.a[2], (const mli_fully_connected_cfg*)x.cfg, x.a[3]); };
    finish(c); return c;
}
typedef mli_status (*RnnF)(const mli_tensor**, const mli_tensor**, const mli_tensor*, const mli_rnn_dense_cfg*, mli_tensor*);
inline RnnF rnn_fn(int ty) { return ty == 0 ? mli_krn_rnn_dense_fx16 : ty == 1 ? mli_krn_rnn_dense_fx16_fx8_fx8 : mli_krn_rnn_dense_sa8_sa8_sa32; }
// in0,w0,in1,w1..,bias,out
inline CallP gen_rnn_dense(const std::string& nm, int ninputs = 0, int out_fixed = 0) {
    auto c = std::make_shared<Call>();
    c->kind = kRnn; c->ty = (int)ch(3);
    c->name = nm + ":mli_krn_rnn_dense_" + (c->ty == 0 ? "fx16" : c->ty == 1 ? "fx16_fx8_fx8" : "sa8_sa8_sa32");
    auto* cfg = mkcfg<mli_rnn_dense_cfg>(c, (nm + ".cfg").c_str());
    int n = ninputs ? ninputs : range(1, 3); c->n_in = n;
    cfg->inputs_num = (uint8_t)n;
    uint32_t o = out_fixed ? out_fixed : longer(1 + ch(10)); uint32_t os[1] = {o};
    Ten bias = mk(nm + ".bias", el_of(c->ty, 2), 1, os, true), out = mk(nm + ".out", el_of(c->ty, 0), 1, os, true);
    for (int i = 0; i < n; i++) {
        int rank = 1; uint32_t is[1] = {i == 1 && out_fixed ? o : longer(1 + ch(14))};
        uint32_t ws[2] = {is[0], o};
        std::string s = nm + ".x" + std::to_string(i);
        Ten in = mk(s, el_of(c->ty, 0), rank, is, true), w = mk(s + ".weights", el_of(c->ty, 1), 2, ws);
        if (i == 0) quant_mac(c->ty, in, w, bias, &out, (int)is[0] * n, -1, 0, nm);
        else if (c->ty != 2) { in.t->el_params = c->t[0].t->el_params; w.t->el_params = c->t[1].t->el_params; if (flip()) { in.t->el_params.fx.frac_bits += (int8_t)range(-1, 1); } }
        else { set_scalar_sa(in.t, (int16_t)range(-128, 127), (int16_t)range(1 << 14, 32767), 20); set_scalar_sa(w.t, 0, (int16_t)range(1 << 14, 32767), 20); }
        c->t.push_back(in); c->t.push_back(w);
    }
    c->t.push_back(bias); c->t.push_back(out);
    RnnF f = rnn_fn(c->ty);
    c->f = [f](Call& x) {
        const mli_tensor *in[8], *w[8];
        for (int i = 0; i < x.n_in; i++) { in[i] = x.a[2 * i]; w[i] = x.a[2 * i + 1]; }
        return f(in, w, x.a[2 * x.n_in], (const mli_rnn_dense_cfg*)x.cfg, x.a[2 * x.n_in + 1]);
    };
    finish(c); return c;
}
// in, prev_out, weights_in, weights_out, bias, [cell,] out
inline CallP gen_cell(const std::string& nm, Kind kind, int steps = 0) {
    auto c = std::make_shared<Call>();
    c->kind = kind; c->ty = (int)ch(3);
    const char* tn = c->ty == 0 ? "fx16" : c->ty == 1 ? "fx16_fx8_fx8" : "sa8_sa8_sa32";
    c->name = nm + (kind == kLstm ? ":mli_krn_lstm_cell_" : ":mli_krn_gru_cell_") + tn;
    auto* cfg = mkcfg<mli_rnn_cell_cfg>(c, (nm + ".cfg").c_str());
    uint32_t T = longer(steps ? steps : 1 + ch(5)), in = longer(1 + ch(8)), o = longer(1 + ch(8)), g = kind == kLstm ? 4 : 3;
    uint32_t is[2] = {T, in}, ps[1] = {o}, wi[3] = {g, in, o}, wo[3] = {g, o, o}, bs[2] = {g, o};
    cfg->direction = flip() ? RNN_DIR_BACKWARD : RNN_DIR_FORWARD; cfg->results = flip() ? RNN_OUT_ALL : RNN_OUT_LAST;
    cfg->act = (mli_rnn_out_activation)ch(3);
    mli_element_type et = el_of(c->ty, 0);
    int es = el_size(et);
    uint32_t rows = cfg->results == RNN_OUT_ALL ? T : 1;
    c->scratch = alloc((size_t)g * o * es, (nm + ".scratch").c_str(), -1, 4);
    fill(c->scratch, data_seed());
    cfg->scratch_data.mem.pi8 = (int8_t*)c->scratch.p; cfg->scratch_data.capacity = (uint32_t)c->scratch.n;
    Ten tin = mk(nm + ".in", et, 2, is, true), prev = mk(nm + ".prev_out", et, 1, ps, true), w1 = mk(nm + ".weights_in", el_of(c->ty, 1), 3, wi), w2 = mk(nm + ".weights_out", el_of(c->ty, 1), 3, wo);
    Ten b = mk(nm + ".bias", el_of(c->ty, 2), 2, bs);
    uint32_t osh[2] = {rows, o};
    Ten out = mk(nm + ".out", et, 2, osh, true);
    int waxis = c->ty == 2 && flip() ? 0 : -1;
    quant_mac(c->ty, tin, w1, b, nullptr, (int)(in + o), waxis, 0, nm);
    if (c->ty != 2) {
        // intermediate results hold 3 integer bits: scale the operands so that they are not saturated all the time
        tin.t->el_params.fx.frac_bits = (int8_t)range(12, 15); prev.t->el_params.fx.frac_bits = (int8_t)range(14, 15);
        int8_t fw = (int8_t)(c->ty == 0 ? 15 : 7);
        w1.t->el_params.fx.frac_bits = fw; w2.t->el_params.fx.frac_bits = (int8_t)(fw - (int)ch(2));
        b.t->el_params.fx.frac_bits = (int8_t)(c->ty == 0 ? range(12, 15) : range(5, 7));
        out.t->el_params.fx.frac_bits = flip() ? prev.t->el_params.fx.frac_bits : (int8_t)range(13, 15);
    } else {
        sa_simple(prev, -128, 127, 20, 21);
        if (flip()) out.t->el_params = prev.t->el_params; else sa_simple(out, -128, 127, 20, 21);
        if (waxis < 0) set_scalar_sa(w2.t, 0, (int16_t)range(1 << 14, 32767), 20);
        else {
            set_axis_sa(w2, 0, (int)g, (nm + ".w2").c_str()); Rng r(data_seed());
            for (uint32_t i = 0; i < g; i++) { int16_t s = (int16_t)r.range(1 << 14, 32767), z = 0; memcpy(w2.scale.p + 2 * i, &s, 2); memcpy(w2.zp.p + 2 * i, &z, 2); w2.frac.p[i] = (uint8_t)(20 + r.range(-1, 1)); }
        }
    }
    c->t = {tin, prev, w1, w2, b};
    if (kind == kLstm) {
        Ten cell = mk(nm + ".cell", et, 1, ps, true);
        if (c->ty == 2) sa_simple(cell, -128, 127, 19, 21); else cell.t->el_params.fx.frac_bits = (int8_t)range(11, 14);
        c->cell = (int)c->t.size(); c->t.push_back(cell);
    }
    c->t.push_back(out);
    c->lut1 = lut_tanh(); c->lut2 = lut_sigm();
    if (kind == kLstm) {
        auto f = c->ty == 0 ? mli_krn_lstm_cell_fx16 : c->ty == 1 ? mli_krn_lstm_cell_fx16_fx8_fx8 : mli_krn_lstm_cell_sa8_sa8_sa32;
        c->f = [f](Call& x) { return f(x.a[0], x.a[1], x.a[2], x.a[3], x.a[4], x.lut1, x.lut2, (const mli_rnn_cell_cfg*)x.cfg, x.a[5], x.a[6]); };
    } else {
        auto f = c->ty == 0 ? mli_krn_gru_cell_fx16 : c->ty == 1 ? mli_krn_gru_cell_fx16_fx8_fx8 : mli_krn_gru_cell_sa8_sa8_sa32;
        c->f = [f](Call& x) { return f(x.a[0], x.a[1], x.a[2], x.a[3], x.a[4], x.lut1, x.lut2, (const mli_rnn_cell_cfg*)x.cfg, x.a[5]); };
    }
    finish(c); return c;
}
inline void unary(CallP c, const std::string& nm, int rank = 0) {
    if (!rank) rank = range(1, 4);
    uint32_t s[4]; rshape(rank, s);
    c->t = {mk(nm + ".in", el_of(c->ty, 0), rank, s), mk(nm + ".out", el_of(c->ty, 0), rank, s)};
}
inline const char* tyn(int ty) { return ty == 0 ? "fx16" : ty == 2 ? "sa8" : "fx8"; }
static const int kTy3[3] = {0, 2, 3};

inline CallP gen_relu(const std::string& nm) {
    auto c = std::make_shared<Call>(); c->kind = kRelu; c->ty = any(kTy3); c->in_place_ok = true;
    c->name = nm + ":mli_krn_relu_" + tyn(c->ty);
    mkcfg<mli_relu_cfg>(c, (nm + ".cfg").c_str())->type = pick_relu();
    unary(c, nm);
    if (c->ty == 2) { sa_simple(c->t[0], -128, 127, 13, 19); sa_simple(c->t[1]); } else { c->t[0].t->el_params.fx.frac_bits = (int8_t)ch(c->ty ? 8 : 15); }
    auto f = c->ty == 0 ? mli_krn_relu_fx16 : c->ty == 2 ? mli_krn_relu_sa8 : mli_krn_relu_fx8;
    c->f = [f](Call& x) { return f(x.a[0], (const mli_relu_cfg*)x.cfg, x.a[1]); };
    finish(c); return c;
}
inline CallP gen_leaky(const std::string& nm, bool prelu) {
    auto c = std::make_shared<Call>(); c->kind = prelu ? kPrelu : kLeaky; c->ty = any(kTy3); c->in_place_ok = true;
    c->name = nm + (prelu ? ":mli_krn_prelu_" : ":mli_krn_leaky_relu_") + tyn(c->ty);
    unary(c, nm);
    int rank = (int)c->t[0].t->rank, axis = -1;
    Ten slope;
    if (prelu) {
        axis = range(-1, rank - 1); if (axis < 0) axis -= (int)ch(3);
        mkcfg<mli_prelu_cfg>(c, (nm + ".cfg").c_str())->axis = axis;
    }
    if (axis < 0) slope = mk_scalar(nm + ".slope", el_of(c->ty, 0), 1);
    else { uint32_t s[4] = {1, 1, 1, 1}; s[axis] = c->t[0].t->shape[axis]; slope = mk(nm + ".slope", el_of(c->ty, 0), rank, s, true); }
    if (c->ty == 2) {
        sa_simple(c->t[0]); sa_simple(c->t[1], -128, 127, 12, 15); sa_simple(slope, -128, 127, 18, 22);
    } else {
        int fb = (int)ch(8); c->t[0].t->el_params.fx.frac_bits = c->t[1].t->el_params.fx.frac_bits = (int8_t)fb;
        slope.t->el_params.fx.frac_bits = (int8_t)(c->ty ? range(5, 7) : range(12, 15));
    }
    c->t.insert(c->t.begin() + 1, slope);
    if (prelu) {
        auto f = c->ty == 0 ? mli_krn_prelu_fx16 : c->ty == 2 ? mli_krn_prelu_sa8 : mli_krn_prelu_fx8;
        c->f = [f](Call& x) { return f(x.a[0], x.a[1], (const mli_prelu_cfg*)x.cfg, x.a[2]); };
    } else {
        auto f = c->ty == 0 ? mli_krn_leaky_relu_fx16 : c->ty == 2 ? mli_krn_leaky_relu_sa8 : mli_krn_leaky_relu_fx8;
        c->f = [f](Call& x) { return f(x.a[0], x.a[1], x.a[2]); };
    }
    finish(c); return c;
}
inline CallP gen_sigm(const std::string& nm) {
    auto c = std::make_shared<Call>(); c->kind = kSigm; c->ty = any(kTy3); c->in_place_ok = true;
    bool th = flip();
    c->name = nm + (th ? ":mli_krn_tanh_" : ":mli_krn_sigm_") + tyn(c->ty);
    unary(c, nm);
    if (c->ty == 2) { sa_simple(c->t[0], -128, 127, 18, 21); sa_simple(c->t[1]); } else c->t[0].t->el_params.fx.frac_bits = (int8_t)(c->ty ? range(3, 7) : range(9, 15));
    c->lut1 = th ? lut_tanh() : lut_sigm();
    auto f = th ? (c->ty == 0 ? mli_krn_tanh_fx16 : c->ty == 2 ? mli_krn_tanh_sa8 : mli_krn_tanh_fx8) : (c->ty == 0 ? mli_krn_sigm_fx16 : c->ty == 2 ? mli_krn_sigm_sa8 : mli_krn_sigm_fx8);
    c->f = [f](Call& x) { return f(x.a[0], x.lut1, x.a[1]); };
    finish(c); return c;
}
inline CallP gen_softmax(const std::string& nm) {
    auto c = std::make_shared<Call>(); c->kind = kSoftmax; c->ty = any(kTy3); c->in_place_ok = true;
    c->name = nm + ":mli_krn_softmax_" + tyn(c->ty);
    unary(c, nm);
    int axis = range(-1, (int)c->t[0].t->rank - 1); if (axis < 0) axis -= (int)ch(3);
    if (c->ty == 2 || c->ty == 3) { uint8_t* p = c->t[0].data.p; if (flip()) for (size_t i = 0; i < c->t[0].data.n; i++) p[i] = (uint8_t)((int8_t)p[i] >> 2); }
    mkcfg<mli_softmax_cfg>(c, (nm + ".cfg").c_str())->axis = axis;
    if (c->ty == 2) { sa_simple(c->t[0], -128, 127, 18, 21); sa_simple(c->t[1]); } else c->t[0].t->el_params.fx.frac_bits = (int8_t)(c->ty ? range(3, 7) : range(9, 15));
    c->lut1 = lut_softmax();
    auto f = c->ty == 0 ? mli_krn_softmax_fx16 : c->ty == 2 ? mli_krn_softmax_sa8 : mli_krn_softmax_fx8;
    c->f = [f](Call& x) { return f(x.a[0], x.lut1, (const mli_softmax_cfg*)x.cfg, x.a[1]); };
    finish(c); return c;
}
inline CallP gen_l2(const std::string& nm) {
    auto c = std::make_shared<Call>(); c->kind = kL2; c->ty = flip() ? 2 : 0; c->in_place_ok = true;
    c->name = nm + ":mli_krn_l2_normalize_" + tyn(c->ty);
    unary(c, nm);
    Ten eps = mk_scalar(nm + ".epsilon", el_of(c->ty, 0), 1);
    if (c->ty == 2) { sa_simple(c->t[0], -128, 127, 14, 18); sa_simple(c->t[1]); sa_simple(eps); }
    else { c->t[0].t->el_params.fx.frac_bits = (int8_t)range(7, 15); eps.t->el_params.fx.frac_bits = 15; }
    c->t.insert(c->t.begin() + 1, eps);
    int axis = range(-1, (int)c->t[0].t->rank - 1); if (axis < 0) axis -= (int)ch(3);
    mkcfg<mli_l2_normalize_cfg>(c, (nm + ".cfg").c_str())->axis = axis;
    c->lut1 = lut_l2();
    auto f = c->ty == 0 ? mli_krn_l2_normalize_fx16 : mli_krn_l2_normalize_sa8;
    c->f = [f](Call& x) { return f(x.a[0], x.a[1], x.lut1, (const mli_l2_normalize_cfg*)x.cfg, x.a[2]); };
    finish(c); return c;
}
inline CallP gen_elt(const std::string& nm) {
    auto c = std::make_shared<Call>();
    const EltE& e = any(kElts);
    c->name = nm + ":" + e.n; c->kind = e.k; c->ty = e.ty; c->in_place_ok = true;
    int rank = range(1, 4); uint32_t s[4]; rshape(rank, s, 0, true);
    int sc = (int)ch(6);                       // 0..3 both full, 4 in1 scalar, 5 in2 scalar
    mli_element_type et = el_of(c->ty, 0);
    Ten in1 = sc == 4 ? mk_scalar(nm + ".in1", et, range(1, 4)) : mk(nm + ".in1", et, rank, s);
    Ten in2 = sc == 5 ? mk_scalar(nm + ".in2", et, range(1, 4)) : mk(nm + ".in2", et, rank, s);
    c->t = {in1, in2, mk(nm + ".out", et, rank, s)};
    if (c->ty == 2) {
        sa_simple(in1, -128, 127, 15, 16); sa_simple(in2, -128, 127, 15, 16);
        if (e.k == kEltMM) in2.t->el_params = in1.t->el_params;
        sa_simple(c->t[2], -128, 127, e.k == kEltMul ? 9 : 14, e.k == kEltMul ? 11 : 16);
    } else {
        int a = (int)ch(6), b = e.k == kEltMM ? a : (int)ch(6);
        if (e.k == kEltMul) { a = c->ty ? range(3, 7) : range(8, 15); b = c->ty ? range(3, 7) : range(8, 15); }
        in1.t->el_params.fx.frac_bits = (int8_t)a; in2.t->el_params.fx.frac_bits = (int8_t)b;
        int o = e.k == kEltMul ? std::max(0, a + b - range(c->ty ? 4 : 12, c->ty ? 8 : 16)) : e.k == kEltMM ? a : std::max(0, std::min(a, b) - (int)ch(2));
        c->t[2].t->el_params.fx.frac_bits = (int8_t)o;
    }
    EltF f = e.f;
    c->f = [f](Call& x) { return f(x.a[0], x.a[1], x.a[2]); };
    finish(c); return c;
}
inline CallP gen_permute(const std::string& nm) {
    auto c = std::make_shared<Call>(); c->kind = kPermute; c->ty = any(kTy3);
    bool s32 = false;                          // mli_krn_permute_sa32 is declared but not implemented
    c->name = nm + ":mli_krn_permute_" + (s32 ? "sa32" : tyn(c->ty));
    mli_element_type et = s32 ? MLI_EL_SA_32 : el_of(c->ty, 0);
    int rank = range(1, 4); uint32_t s[4], o[4]; rshape(rank, s, 0, true);
    uint8_t p[4] = {0, 1, 2, 3};
    for (int i = 0; i < rank; i++) std::swap(p[i], p[i + ch(rank - i)]);
    for (int i = 0; i < rank; i++) o[i] = s[p[i]];
    auto* cfg = mkcfg<mli_permute_cfg>(c, (nm + ".cfg").c_str());
    memcpy(cfg->perm_dim, p, 4);
    c->t = {mk(nm + ".in", et, rank, s), mk(nm + ".out", et, rank, o)};
    if (c->ty == 2) {
        sa_simple(c->t[0]);
        if (flip()) {
            int d = (int)ch(rank), how = (int)ch(3);
            set_axis_sa(c->t[0], d, (int)s[d], (nm + ".in").c_str());
            fill(c->t[0].scale, data_seed()); fill(c->t[0].zp, data_seed()); fill(c->t[0].frac, data_seed());
            for (uint32_t i = 0; i < s[d]; i++) ((int16_t*)c->t[0].scale.p)[i] = (int16_t)(1 + (((uint16_t*)c->t[0].scale.p)[i] & 0x3fff));
            if (how == 0) { memset(&c->t[1].t->el_params, 0, sizeof(mli_element_params)); c->t[1].t->el_params.sa.dim = -1; }
            else if (how == 1) c->t[1].t->el_params = c->t[0].t->el_params;
            else { set_axis_sa(c->t[1], d, (int)s[d], (nm + ".out").c_str()); int nd = 0; for (int i = 0; i < rank; i++) if (p[i] == d) nd = i; c->t[1].t->el_params.sa.dim = nd; fill(c->t[1].scale, data_seed()); for (uint32_t i = 0; i < s[d]; i++) ((int16_t*)c->t[1].scale.p)[i] = (int16_t)(1 + (((uint16_t*)c->t[1].scale.p)[i] & 0x3fff)); }
            if (how == 1) { int nd = 0; for (int i = 0; i < rank; i++) if (p[i] == d) nd = i; c->t[1].t->el_params.sa.dim = nd; if (o[nd] != s[d]) discard("permute"); }
        }
    } else c->t[0].t->el_params.fx.frac_bits = (int8_t)ch(8);
    auto f = c->ty == 0 ? mli_krn_permute_fx16 : c->ty == 2 ? mli_krn_permute_sa8 : mli_krn_permute_fx8;
    c->f = [f](Call& x) { return f(x.a[0], (const mli_permute_cfg*)x.cfg, x.a[1]); };
    finish(c); return c;
}
inline CallP gen_argmax(const std::string& nm) {
    auto c = std::make_shared<Call>(); c->kind = kArgmax; c->ty = flip() ? 2 : 0;
    c->name = nm + ":mli_krn_argmax_" + tyn(c->ty);
    int rank = range(1, 4); uint32_t s[4]; rshape(rank, s);
    uint32_t n = 1; for (int i = 0; i < rank; i++) n *= s[i];
    auto* cfg = mkcfg<mli_argmax_cfg>(c, (nm + ".cfg").c_str());
    cfg->axis = range(-1, rank - 1); if (cfg->axis < 0) cfg->axis -= (int)ch(3);
    uint32_t dim = cfg->axis >= 0 ? s[cfg->axis] : 1, slice = n / dim;
    cfg->topk = 1 + (int)ch(std::min<uint32_t>(slice, flip() ? 5 : 40));
    uint32_t o[2] = {dim, (uint32_t)cfg->topk};
    c->t = {mk(nm + ".in", el_of(c->ty, 0), rank, s), mk(nm + ".out", MLI_EL_SA_32, 2, o, true)};
    if (c->ty == 2) sa_simple(c->t[0]); else c->t[0].t->el_params.fx.frac_bits = (int8_t)ch(8);
    auto f = c->ty == 0 ? mli_krn_argmax_fx16 : mli_krn_argmax_sa8;
    c->f = [f](Call& x) { return f(x.a[0], (const mli_argmax_cfg*)x.cfg, x.a[1]); };
    finish(c); return c;
}
inline CallP gen_convert(const std::string& nm) {
    auto c = std::make_shared<Call>(); c->kind = kConvert; c->ty = 0;
    static const mli_element_type k[] = {MLI_EL_SA_8, MLI_EL_FX_16, MLI_EL_FX_8, MLI_EL_SA_32, MLI_EL_FP_32};
    mli_element_type a = any(k), b = any(k);
    if (a == MLI_EL_FP_32 && b == MLI_EL_FP_32) b = MLI_EL_FX_16;
    c->name = nm + ":mli_hlp_convert_tensor " + el_name(a) + "->" + el_name(b);
    int rank = range(1, 4); uint32_t s[4]; rshape(rank, s);
    c->t = {mk(nm + ".in", a, rank, s), mk(nm + ".out", b, rank, s)};
    int d = (int)ch(rank);
    int E = a == MLI_EL_FP_32 || b == MLI_EL_FP_32 ? 3 : range(1, 6);   // binary exponent of the largest value
    for (int j = 0; j < 2; j++) {
        Ten& T = c->t[j];
        if (T.t->el_type == MLI_EL_FX_8 || T.t->el_type == MLI_EL_FX_16) T.t->el_params.fx.frac_bits = (int8_t)(T.t->el_type == MLI_EL_FX_8 ? std::max(0, std::min(7, 7 - E + range(-1, 1))) : std::max(0, std::min(15, 15 - E + range(-1, 1))));
        else if (T.t->el_type != MLI_EL_FP_32) {
            int fb = (T.t->el_type == MLI_EL_SA_8 ? 22 : 32) - E;
            sa_simple(T, -128, 127, fb - 1, fb + 1);
            if (flip()) {
                set_axis_sa(T, d, (int)s[d], (nm + (j ? ".out" : ".in")).c_str());
                Rng r(data_seed());
                for (uint32_t i = 0; i < s[d]; i++) { int16_t sc = (int16_t)r.range(1 << 14, 32767), z = (int16_t)r.range(-128, 127); memcpy(T.scale.p + 2 * i, &sc, 2); memcpy(T.zp.p + 2 * i, &z, 2); T.frac.p[i] = (uint8_t)r.range(fb - 1, fb + 1); }
            }
        }
    }
    c->f = [](Call& x) { return mli_hlp_convert_tensor(x.a[0], x.a[1]); };
    finish(c); return c;
}
// Descriptor and table helpers.
inline CallP gen_helper(const std::string& nm) {
    auto c = std::make_shared<Call>(); c->kind = kHelper; c->nodata = true; c->ty = any(kTy3);
    static const mli_element_type k[] = {MLI_EL_SA_8, MLI_EL_FX_16, MLI_EL_FX_8, MLI_EL_SA_32};
    int which = (int)ch(5);
    if (which == 4) {
        c->nodesc = true;
        static const struct { const char* n; int32_t (*size)(); mli_status (*create)(mli_lut*); } l[] = {{"tanh", mli_krn_tanh_get_lut_size, mli_krn_tanh_create_lut}, {"sigm", mli_krn_sigm_get_lut_size, mli_krn_sigm_create_lut},
            {"softmax", mli_krn_softmax_get_lut_size, mli_krn_softmax_create_lut}, {"l2_normalize", mli_krn_l2_normalize_get_lut_size, mli_krn_l2_normalize_create_lut}};
        auto& e = any(l);
        c->name = nm + ":mli_krn_" + e.n + "_create_lut";
        mli_lut* lut = boxed<mli_lut>((nm + ".lut").c_str());
        Buf b = alloc((size_t)e.size(), (nm + ".lut data").c_str(), -1, 4);
        fill(b, data_seed());
        lut->data.mem.pi16 = (int16_t*)b.p; lut->data.capacity = (uint32_t)b.n;
        c->extra = {{lut, sizeof *lut}, {b.p, b.n}};
        auto cr = e.create;
        c->f = [cr, lut](Call&) { return cr(lut); };
        uint32_t one[1] = {1}; c->t = {mk(nm + ".unused", MLI_EL_FX_8, 1, one)};
        finish(c); return c;
    }
    mli_element_type et = any(k);
    int rank = range(1, 4); uint32_t s[4]; rshape(rank, s);
    Ten in = mk(nm + ".in", et, rank, s, which == 1);
    int d = -1;
    if (et == MLI_EL_SA_8 || et == MLI_EL_SA_32) {
        sa_simple(in);
        if (flip() && which != 1) { d = (int)ch(rank); set_axis_sa(in, d, (int)s[d], (nm + ".in").c_str());
            for (uint32_t i = 0; i < s[d]; i++) ((int16_t*)in.scale.p)[i] = (int16_t)(1 + (((uint16_t*)in.scale.p)[i] & 0x3fff)); }
    } else in.t->el_params.fx.frac_bits = (int8_t)ch(8);
    c->t = {in};
    if (which == 0 || which == 1) {
        Ten out; out.t = boxed<mli_tensor>((nm + ".sub descriptor").c_str());
        if (which == 0) {
            c->name = nm + ":mli_hlp_create_subtensor";
            auto* cfg = mkcfg<mli_sub_tensor_cfg>(c, (nm + ".cfg").c_str());
            int ones = 0;
            for (int i = 0; i < rank; i++) { cfg->offset[i] = ch(s[i]); cfg->size[i] = 1 + ch(s[i] - cfg->offset[i]); if (cfg->size[i] == 1) ones++; }
            cfg->sub_tensor_rank = rank - ch(std::min(ones, rank - 1) + 1);
            c->f = [](Call& x) { return mli_hlp_create_subtensor(x.a[0], (const mli_sub_tensor_cfg*)x.cfg, x.a[1]); };
        } else {
            c->name = nm + ":mli_hlp_point_to_subtensor";
            auto* cfg = mkcfg<mli_point_to_subtsr_cfg>(c, (nm + ".cfg").c_str());
            cfg->coord_num = (uint8_t)range(1, rank);
            for (int i = 0; i < (int)cfg->coord_num; i++) cfg->start_coord[i] = (uint8_t)ch(std::min<uint32_t>(s[i], 256));
            cfg->first_out_dim_size = (uint8_t)(1 + ch(std::min<uint32_t>(s[cfg->coord_num - 1] - cfg->start_coord[cfg->coord_num - 1], 255)));
            c->f = [](Call& x) { return mli_hlp_point_to_subtensor(x.a[0], (const mli_point_to_subtsr_cfg*)x.cfg, x.a[1]); };
        }
        c->t.push_back(out);
    } else {
        c->nodesc = true;
        c->name = nm + ":tensor queries";
        int32_t* r = (int32_t*)alloc(32, (nm + ".answers").c_str(), -1, 4).p;
        c->extra = {{r, 32}};
        uint32_t sd = ch(rank), idx = d >= 0 ? ch(s[d]) : 0;
        c->f = [r, sd, idx](Call& x) {
            const mli_tensor* t = x.a[0];
            int32_t v[8] = {(int32_t)mli_hlp_count_elem_num(t, sd), (int32_t)mli_hlp_tensor_element_size(t), mli_hlp_tensor_scale_shift(t, idx), mli_hlp_tensor_scale(t, idx), mli_hlp_tensor_zero_offset(t, idx),
                mli_hlp_tensor_data_ptr_cmp(t, t), (int32_t)mli_hlp_count_elem_num(t, 0), 0};
            memcpy(r, v, 32);
            return MLI_STATUS_OK;
        };
    }
    finish(c); return c;
}
// The bilinear resize of MLI 3.0 has a stand-alone form, with the descriptors of MLI 2.0 and without a status.
inline CallP gen_resize(const std::string& nm) {
    typedef snps_arc::metaware::mli::ResizeOpConfig Cfg;
    auto c = std::make_shared<Call>(); c->kind = kResize; c->ty = 2;
    c->name = nm + ":run_mli_resize_bilinear_standalone";
    uint32_t s[4], o[4]; rshape(4, s); rshape(4, o); o[0] = s[0]; o[3] = s[3];
    bool compile = chance(1, 4);
    auto* cfg = mkcfg<Cfg>(c, (nm + ".cfg").c_str());
    int shift = range(1, 11), lim = 16 << shift;
    cfg->shift = (int8_t)shift;
    for (int k = 0; k < 2; k++) {
        int lo = shift >= 4 ? (1 << (shift - 4)) + 1 : 1, hi = std::min(lim - 1, 32767);
        if (flip()) hi = std::max(lo, std::min(hi, (int)(((int64_t)s[1 + k] << shift) / o[1 + k]) + 2));
        cfg->stride[k] = (int16_t)range(lo, hi);
        int m = flip() ? 0 : flip() ? lim - 1 : std::min(lim - 1, (2 << shift));
        cfg->offset[k] = (int16_t)range(-m, std::min(m, 32767));
    }
    c->t = {mk(nm + ".in", MLI_EL_SA_8, 4, s), mk(nm + ".out", MLI_EL_SA_32, 4, o)};
    sa_simple(c->t[0]); sa_simple(c->t[1]);
    c->f = [compile](Call& x) {
        if (compile) {                                      // the compiler object of the same operator has to take it too
            namespace M = snps_arc::metaware::mli;
            auto of = [](const mli_tensor* t) { uint32_t s[4]; int32_t m[4]; for (int i = 0; i < 4; i++) { s[i] = t->shape[i]; m[i] = t->mem_stride[i]; } return M::TensorIterator<M::NoBuffer, 4, 4>(M::Tensor<M::NoBuffer, 4>(s, m)); };
            M::ref::ResizeBilinear_CS cs(M::PlatformDescription(), of(x.a[0]), *(const Cfg*)x.cfg, of(x.a[1]));
            M::OffsetBuffer i(0, 0, 1, 1), o(0, 1, 4, 4), ctrl;
            std::vector<uint8_t> b(cs.GetKernelPrivateDataSize());
            if (cs.AttachBufferOffsets(i, o, ctrl) != MLI_STATUS_OK || cs.GetKernelPrivateData(b.data()) != MLI_STATUS_OK) violation("resize-compile", "the compiler object refuses a valid bilinear resize");
        }
        snps_arc::metaware::mli::ref::run_mli_resize_bilinear_standalone(x.a[0], *(const Cfg*)x.cfg, x.a[1]); return MLI_STATUS_OK; };
    finish(c); return c;
}
const int kCallKinds = 22;
inline CallP gen_no(uint32_t which, const std::string& nm) {
    switch (which) {
    case 19: return gen_helper(nm);
    case 0: return gen_elt(nm);
    case 1: return gen_relu(nm);
    case 2: return gen_leaky(nm, false);
    case 3: return gen_leaky(nm, true);
    case 4: return gen_sigm(nm);
    case 5: return gen_softmax(nm);
    case 6: return gen_l2(nm);
    case 7: return gen_pool(nm);
    case 8: return gen_fc(nm);
    case 9: return gen_conv(nm, kConv);
    case 10: return gen_conv(nm, kDw);
    case 11: return gen_conv(nm, kGroup);
    case 12: return gen_conv(nm, kTrans);
    case 13: return gen_rnn_dense(nm);
    case 14: return gen_cell(nm, kLstm);
    case 15: return gen_cell(nm, kGru);
    case 16: return gen_permute(nm);
    case 17: return gen_argmax(nm);
    case 18: return gen_convert(nm);
    case 20: return gen_resize(nm);
    default: return gen_pool(nm);
    }
}
inline CallP gen_any(const std::string& nm) { return gen_no(ch(kCallKinds), nm); }

// ------------------------------------------------------------------ what a call may write
inline void allow_result(Mask& m, const Call& c) {
    const Ten& o = c.t.back();
    for (auto& e : c.extra) m.allow(e.first, e.second);
    if (!c.nodata) {
        int es = el_size(o.t->el_type);
        for_each_elem(c.orank, c.oshape, [&](const uint32_t* k) {
            size_t off = 0; for (int i = 0; i < c.orank; i++) off += (size_t)k[i] * c.ostride[i];
            m.allow((uint8_t*)o.data.p + off * es, es);
        });
    }
    if (!c.nodesc) m.allow(o.t, sizeof(mli_tensor));
    if (c.kind == kPermute) { if (o.scale.slot >= 0) { m.allow(o.scale.p, o.scale.n); m.allow(o.zp.p, o.zp.n); m.allow(o.frac.p, o.frac.n); } }
    if (c.cell >= 0) { m.allow(c.t[c.cell].data.p, c.t[c.cell].data.n); }
    if (c.scratch.slot >= 0) m.allow(c.scratch.p, c.scratch.n);
}
// Values of the result: output elements, output descriptor, cell state (scratch excepted).
// Meaningful part of a descriptor.
inline std::vector<uint8_t> desc_of(const mli_tensor* t) {
    std::vector<uint8_t> d;
    auto put = [&](const void* p, size_t n) { d.insert(d.end(), (const uint8_t*)p, (const uint8_t*)p + n); };
    put(&t->data.capacity, sizeof t->data.capacity); put(&t->rank, sizeof t->rank); put(&t->el_type, sizeof t->el_type);
    if (t->rank) put(&t->data.mem.pi8, sizeof t->data.mem.pi8);
    uint32_t r = t->rank > 4 ? 4 : t->rank;
    put(t->shape, r * sizeof t->shape[0]); put(t->mem_stride, r * sizeof t->mem_stride[0]);
    if (t->el_type == MLI_EL_FX_8 || t->el_type == MLI_EL_FX_16) put(&t->el_params.fx.frac_bits, sizeof t->el_params.fx.frac_bits);
    else if (t->el_type != MLI_EL_FP_32) {
        auto& sa = t->el_params.sa; put(&sa.dim, sizeof sa.dim);
        if (sa.dim < 0) { put(&sa.zero_point.mem.i16, 2); put(&sa.scale.mem.i16, 2); put(&sa.scale_frac_bits.mem.i8, 1); }
        else { put(&sa.zero_point.mem.pi16, 8); put(&sa.scale.mem.pi16, 8); put(&sa.scale_frac_bits.mem.pi8, 8); }
    }
    return d;
}
struct Result { mli_status st; std::vector<uint8_t> out, desc, cell, par; };
inline Result result_of(const Call& c) {
    Result r; r.st = c.st;
    const Ten& o = c.t.back();
    for (auto& e : c.extra) r.par.insert(r.par.end(), (uint8_t*)e.first, (uint8_t*)e.first + e.second);
    if (!c.nodata) {
        int es = el_size(o.t->el_type);
        for_each_elem(c.orank, c.oshape, [&](const uint32_t* k) {
            size_t off = 0; for (int i = 0; i < c.orank; i++) off += (size_t)k[i] * c.ostride[i];
            r.out.insert(r.out.end(), o.data.p + off * es, o.data.p + off * es + es);
        });
    }
    if (!c.nodesc) r.desc = desc_of(o.t);
    if (c.cell >= 0) r.cell.assign(c.t[c.cell].data.p, c.t[c.cell].data.p + c.t[c.cell].data.n);
    if (c.kind == kPermute && o.scale.slot >= 0) for (const Buf* b : {&o.scale, &o.zp, &o.frac}) r.par.insert(r.par.end(), b->p, b->p + b->n);
    return r;
}
inline void same_result(const Result& a, const Result& b, const Call& c, const char* how) {
    const char* short_name = strchr(c.name.c_str(), ':'); short_name = short_name ? short_name + 1 : c.name.c_str();
    auto first = [](const std::vector<uint8_t>& x, const std::vector<uint8_t>& y) { size_t i = 0; while (i < x.size() && x[i] == y[i]) i++; return i; };
    if (a.st != b.st) violation(std::string("status ") + short_name, "%s: status %d %s, %d alone", c.name.c_str(), (int)b.st, how, (int)a.st);
    if (a.out != b.out) { size_t i = first(a.out, b.out); violation(std::string("output ") + short_name, "%s: output byte %zu of %zu is 0x%02x %s and 0x%02x alone", c.name.c_str(), i, a.out.size(), b.out[i], how, a.out[i]); }
    if (a.cell != b.cell) violation(std::string("cell ") + short_name, "%s: cell state differs %s", c.name.c_str(), how);
    if (a.desc != b.desc) { size_t i = first(a.desc, b.desc); violation(std::string("descriptor ") + short_name, "%s: output descriptor differs at byte %zu %s", c.name.c_str(), i, how); }
    if (a.par != b.par) violation(std::string("quant-params ") + short_name, "%s: output quantisation parameters differ %s", c.name.c_str(), how);
}
// The same call with every argument somewhere else in memory (only the alignment of the elements is kept).
inline Buf copy_elsewhere(const Buf& b, const std::string& nm, size_t align) {
    size_t off = align * ch(16);
    Buf n = alloc(b.n + off, nm.c_str(), -1, 8);
    n.p += off; n.n -= off;
    bufs().back() = n;
    memcpy(n.p, b.p, b.n);
    return n;
}
inline mli_lut* lut_elsewhere(const mli_lut* l, const std::string& nm) {
    if (!l) return nullptr;
    mli_lut* n = boxed<mli_lut>((nm + ".lut").c_str());
    memcpy(n, l, sizeof *l);
    Buf b; b.p = (uint8_t*)l->data.mem.pi16; b.n = l->data.capacity;
    n->data.mem.pi16 = (int16_t*)copy_elsewhere(b, nm + ".lut data", 2).p;
    return n;
}
inline CallP relocate(const CallP& c, const std::string& nm) {
    auto d = std::make_shared<Call>(*c);
    d->name = nm + c->name.substr(c->name.find(':'));
    for (size_t i = 0; i < d->t.size(); i++) {
        Ten& T = d->t[i]; Ten old = T;
        std::string n = nm + ".arg" + std::to_string(i);
        T.t = boxed<mli_tensor>((n + " descriptor").c_str()); memcpy(T.t, old.t, sizeof(mli_tensor));
        if (old.data.slot >= 0) {
            T.data = copy_elsewhere(old.data, n + " data", (size_t)el_size(old.t->el_type));
            if (old.t->rank > 0) T.t->data.mem.pi8 = (int8_t*)T.data.p;
        }
        if (old.scale.slot >= 0) {
            T.scale = copy_elsewhere(old.scale, n + ".scale", 2); T.zp = copy_elsewhere(old.zp, n + ".zp", 2); T.frac = copy_elsewhere(old.frac, n + ".frac", 1);
        }
    }
    for (size_t i = 0; i < d->t.size(); i++) {      // parameter arrays may be those of another argument
        auto& sa = d->t[i].t->el_params.sa;
        mli_element_type et = d->t[i].t->el_type;
        if ((et != MLI_EL_SA_8 && et != MLI_EL_SA_32) || sa.dim < 0) continue;
        for (size_t j = 0; j < d->t.size(); j++) if (c->t[j].scale.slot >= 0 && sa.scale.mem.pi16 == (int16_t*)c->t[j].scale.p) {
            sa.scale.mem.pi16 = (int16_t*)d->t[j].scale.p; sa.zero_point.mem.pi16 = (int16_t*)d->t[j].zp.p; sa.scale_frac_bits.mem.pi8 = (int8_t*)d->t[j].frac.p;
            break;
        }
    }
    if (c->cfg) { d->cfg = alloc(c->cfg_n, (nm + ".cfg").c_str()).p; memcpy(d->cfg, c->cfg, c->cfg_n); }
    if (c->scratch.slot >= 0) {
        d->scratch = copy_elsewhere(c->scratch, nm + ".scratch", 4);
        ((mli_rnn_cell_cfg*)d->cfg)->scratch_data.mem.pi8 = (int8_t*)d->scratch.p;
    }
    d->lut1 = lut_elsewhere(c->lut1, nm + ".1"); d->lut2 = lut_elsewhere(c->lut2, nm + ".2");
    d->a.clear(); for (auto& x : d->t) d->a.push_back(x.t);
    return d;
}
// A descriptor with its pointers expressed relative to the call's own buffers.
inline std::vector<int64_t> desc_relative(const Call& c, const mli_tensor* t) {
    std::vector<int64_t> v = {(int64_t)t->data.capacity, (int64_t)t->rank, (int64_t)t->el_type};
    auto ptr = [&](const void* p) {
        for (size_t i = 0; i < c.t.size(); i++) {
            const Buf* b[4] = {&c.t[i].data, &c.t[i].scale, &c.t[i].zp, &c.t[i].frac};
            for (int k = 0; k < 4; k++) if (b[k]->slot >= 0 && (const uint8_t*)p >= b[k]->p && (const uint8_t*)p <= b[k]->p + b[k]->n) { v.push_back((int64_t)(i * 4 + k)); v.push_back((const uint8_t*)p - b[k]->p); return; }
        }
        v.push_back(-1);
    };
    if (t->rank) ptr(t->data.mem.pi8);
    for (uint32_t i = 0; i < t->rank && i < 4; i++) { v.push_back(t->shape[i]); v.push_back(t->mem_stride[i]); }
    if (t->el_type == MLI_EL_FX_8 || t->el_type == MLI_EL_FX_16) v.push_back(t->el_params.fx.frac_bits);
    else if (t->el_type != MLI_EL_FP_32) {
        auto& sa = t->el_params.sa; v.push_back(sa.dim);
        if (sa.dim < 0) { v.push_back(sa.zero_point.mem.i16); v.push_back(sa.scale.mem.i16); v.push_back(sa.scale_frac_bits.mem.i8); }
        else { ptr(sa.zero_point.mem.pi16); ptr(sa.scale.mem.pi16); ptr(sa.scale_frac_bits.mem.pi8); }
    }
    return v;
}
// A second call on the same inputs, weights, tables and configuration, with its own output.
inline CallP twin(const CallP& c, const std::string& nm) {
    auto d = std::make_shared<Call>(*c);
    d->name = nm + c->name.substr(c->name.find(':'));
    auto dup = [&](Ten& T, const std::string& n) {
        Ten old = T;
        T.t = boxed<mli_tensor>((n + " descriptor").c_str()); memcpy(T.t, old.t, sizeof(mli_tensor));
        T.data = alloc(old.data.n, (n + " data").c_str(), -1, 4); memcpy(T.data.p, old.data.p, old.data.n);
        T.t->data.mem.pi8 = (int8_t*)T.data.p;
        if (old.scale.slot >= 0) {
            T.scale = alloc(old.scale.n, (n + ".scale").c_str(), -1, 2); T.zp = alloc(old.zp.n, (n + ".zp").c_str(), -1, 2); T.frac = alloc(old.frac.n, (n + ".frac").c_str(), -1, 1);
            memcpy(T.scale.p, old.scale.p, old.scale.n); memcpy(T.zp.p, old.zp.p, old.zp.n); memcpy(T.frac.p, old.frac.p, old.frac.n);
            if (T.t->el_params.sa.dim >= 0) { T.t->el_params.sa.scale.mem.pi16 = (int16_t*)T.scale.p; T.t->el_params.sa.zero_point.mem.pi16 = (int16_t*)T.zp.p; T.t->el_params.sa.scale_frac_bits.mem.pi8 = (int8_t*)T.frac.p; }
        }
    };
    dup(d->t.back(), nm + ".out");
    fill(d->t.back().data, data_seed());
    if (c->cell >= 0) dup(d->t[c->cell], nm + ".cell");
    if (c->scratch.slot >= 0) {
        d->scratch = alloc(c->scratch.n, (nm + ".scratch").c_str(), -1, 4); fill(d->scratch, data_seed());
        auto* cfg = boxed<mli_rnn_cell_cfg>((nm + ".cfg").c_str()); memcpy(cfg, c->cfg, sizeof *cfg);
        cfg->scratch_data.mem.pi8 = (int8_t*)d->scratch.p; d->cfg = cfg;
    }
    d->orank = c->orank;
    d->a.clear(); for (auto& x : d->t) d->a.push_back(x.t);
    return d;
}
// The same call on arguments of its own, with other values (drawn from those that were there) in its first inputs.
inline void redraw(Ten& T) {
    const mli_tensor* t = T.t;
    if (T.data.slot < 0 || t->rank == 0 || t->rank > 4) return;
    size_t es = (size_t)el_size(t->el_type), n = 1;
    uint32_t sh[4] = {1, 1, 1, 1}; int32_t st[4] = {0, 0, 0, 0};
    for (uint32_t i = 0; i < t->rank; i++) { sh[i] = t->shape[i]; st[i] = t->mem_stride[i]; n *= sh[i]; }
    if (n == 0 || n > (1u << 20)) return;
    auto at = [&](size_t k) {
        int64_t o = 0;
        for (int i = 3; i >= 0; i--) { o += (int64_t)(k % sh[i]) * st[i]; k /= sh[i]; }
        return T.data.p + o * (int64_t)es;
    };
    Rng r(data_seed());
    std::vector<uint8_t> v(n * es);
    for (size_t k = 0; k < n; k++) memcpy(&v[k * es], at(k), es);
    for (size_t k = 0; k < n; k++) memcpy(at(k), &v[(r.next() % n) * es], es);
}
inline CallP sibling(const CallP& c, const std::string& nm) {
    CallP d = relocate(c, nm);
    if (d->t.back().data.slot >= 0) fill(d->t.back().data, data_seed());
    if (d->t.size() > 1) redraw(d->t[0]);
    if (d->t.size() > 2 && d->cell != 1 && flip()) redraw(d->t[1]);
    return d;
}
}  // namespace sim
