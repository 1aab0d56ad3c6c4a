// Tensors, descriptors and configurations that live in the guarded arena.
#pragma once
#include "sim.h"
#include "mli_api.h"
#include <algorithm>
#include <array>
#include <cstdio>

namespace sim {

inline int el_size(mli_element_type t) {
    switch (t) { case MLI_EL_FX_16: return 2; case MLI_EL_SA_32: case MLI_EL_FP_32: return 4; default: return 1; }
}
inline const char* el_name(mli_element_type t) {
    switch (t) { case MLI_EL_FX_8: return "fx8"; case MLI_EL_FX_16: return "fx16"; case MLI_EL_SA_8: return "sa8";
                 case MLI_EL_SA_32: return "sa32"; case MLI_EL_FP_32: return "fp32"; default: return "?"; }
}
typedef std::array<int, 4> Dim;

// One object of type T in its own guarded slot: writes to it or past it are seen by diff().
template <class T> T* boxed(const char* name) { Buf b = alloc(sizeof(T), name, (int)ch(3)); memset(b.p, 0, sizeof(T)); return (T*)b.p; }

struct Ten {
    mli_tensor* t = nullptr;                   // in the arena
    Buf data, scale, zp, frac;                 // per-axis buffers are empty when not used
    mli_tensor* operator->() const { return t; }
};

inline size_t span_elems(int rank, const uint32_t* shape, const int32_t* st) {
    size_t n = 1;
    for (int i = 0; i < rank; i++) n += (size_t)(shape[i] - 1) * st[i];
    return n;
}
// Row-major strides with optional gaps after each dimension.
inline void make_strides(int rank, const uint32_t* shape, int32_t* st, bool gaps, bool inner_gap, int gap_max = 3) {
    int64_t next = 1;
    for (int i = rank - 1; i >= 0; i--) {
        int64_t s = next;
        if (gaps && (i < rank - 1 || inner_gap)) s += longer(ch((uint32_t)gap_max));
        st[i] = (int32_t)s;
        next = s * shape[i];
    }
}
inline void for_each_elem(int rank, const uint32_t* shape, const std::function<void(const uint32_t*)>& f) {
    uint32_t c[4] = {0, 0, 0, 0};
    uint64_t n = 1;
    for (int i = 0; i < rank; i++) n *= shape[i];
    for (uint64_t k = 0; k < n; k++) {
        f(c);
        for (int i = rank - 1; i >= 0; i--) { if (++c[i] < shape[i]) break; c[i] = 0; }
    }
}
inline size_t elem_off(const mli_tensor* t, const uint32_t* c) {
    size_t o = 0;
    for (uint32_t i = 0; i < t->rank; i++) o += (size_t)c[i] * t->mem_stride[i];
    return o;
}
inline uint8_t* data_ptr(const mli_tensor* t) { return (uint8_t*)t->data.mem.pi8; }
// Bytes of the elements that the tensor addresses.
inline void allow_elems(Mask& m, const mli_tensor* t) {
    int es = el_size(t->el_type);
    for_each_elem((int)t->rank, t->shape, [&](const uint32_t* c) { m.allow(data_ptr(t) + elem_off(t, c) * es, es); });
}
inline std::vector<uint8_t> read_elems(const mli_tensor* t) {
    std::vector<uint8_t> v;
    int es = el_size(t->el_type);
    for_each_elem((int)t->rank, t->shape, [&](const uint32_t* c) { const uint8_t* p = data_ptr(t) + elem_off(t, c) * es; v.insert(v.end(), p, p + es); });
    return v;
}
inline int64_t get_elem(const mli_tensor* t, const uint32_t* c) {
    size_t o = elem_off(t, c);
    switch (el_size(t->el_type)) {
    case 2: { int16_t v; memcpy(&v, data_ptr(t) + o * 2, 2); return v; }
    case 4: { int32_t v; memcpy(&v, data_ptr(t) + o * 4, 4); return v; }
    default: return ((int8_t*)data_ptr(t))[o];
    }
}
inline void set_elem(const mli_tensor* t, const uint32_t* c, int64_t v) {
    size_t o = elem_off(t, c);
    switch (el_size(t->el_type)) {
    case 2: { int16_t x = (int16_t)v; memcpy(data_ptr(t) + o * 2, &x, 2); break; }
    case 4: { int32_t x = (int32_t)v; memcpy(data_ptr(t) + o * 4, &x, 4); break; }
    default: ((int8_t*)data_ptr(t))[o] = (int8_t)v;
    }
}
inline uint64_t hash_bytes(const std::vector<uint8_t>& v) { uint64_t h = 1469598103934665603ull; for (uint8_t b : v) h = (h ^ b) * 0x100000001B3ull; return h; }

inline void set_scalar_sa(mli_tensor* t, int16_t zp, int16_t scale, int8_t frac) {
    memset(&t->el_params, 0, sizeof t->el_params);
    t->el_params.sa.dim = -1;
    t->el_params.sa.zero_point.mem.i16 = zp;
    t->el_params.sa.scale.mem.i16 = scale;
    t->el_params.sa.scale_frac_bits.mem.i8 = frac;
}
// Allocates per-axis parameter arrays of n entries and points the tensor at them.
inline void set_axis_sa(Ten& T, int dim, int n, const char* name) {
    std::string nm = name;
    memset(&T.t->el_params, 0, sizeof T.t->el_params);
    T.scale = alloc(n * 2, (nm + ".scale").c_str(), -1, 2);
    T.zp = alloc(n * 2, (nm + ".zero_point").c_str(), -1, 2);
    T.frac = alloc(n, (nm + ".frac").c_str(), -1, 1);
    T.t->el_params.sa.dim = dim;
    T.t->el_params.sa.scale.mem.pi16 = (int16_t*)T.scale.p; T.t->el_params.sa.scale.capacity = (uint32_t)T.scale.n;
    T.t->el_params.sa.zero_point.mem.pi16 = (int16_t*)T.zp.p; T.t->el_params.sa.zero_point.capacity = (uint32_t)T.zp.n;
    T.t->el_params.sa.scale_frac_bits.mem.pi8 = (int8_t*)T.frac.p; T.t->el_params.sa.scale_frac_bits.capacity = (uint32_t)T.frac.n;
}
}  // namespace sim
