// MLI 2.0 kernels and helpers: C08 re-entrancy, C09 isolation, C10 resumable recurrences, C11 workers, C14 rejections.
#include <cctype>
#include "k2_calls.h"

namespace sim {

static bool checks_on() { return !strcmp(config_name(), "rc") || !strcmp(config_name(), "dbg"); }
static const char* short_of(const Call& c) { const char* s = strchr(c.name.c_str(), ':'); return s ? s + 1 : c.name.c_str(); }
static void mix_result(const Result& r) { mix(r.st); mix(hash_bytes(r.out)); mix(hash_bytes(r.cell)); mix(hash_bytes(r.par)); mix(hash_bytes(r.desc)); }
static void solo(Call& c) { run_solo([&] { c.run(); }); }

// Garbage in every byte that no documented input covers: around all buffers, in the gaps of tensors,
// in output, scratch and unused descriptor fields.
// The output descriptor of a recurrent cell may hold any shape before the call: that of an earlier, unrelated result.
static void stale_shape(Ten& T, Rng& r) {
    uint32_t n = (uint32_t)(T.t->data.capacity / el_size(T.t->el_type));
    if (!n) return;
    T.t->rank = 1 + (uint32_t)(r.next() % 4);
    for (uint32_t d = 0; d < T.t->rank; d++) { T.t->shape[d] = 1 + (uint32_t)(r.next() % std::min(n, 7u)); n /= T.t->shape[d]; }
    int32_t m = 1;
    for (int d = (int)T.t->rank - 1; d >= 0; d--) { T.t->mem_stride[d] = m; m *= (int32_t)T.t->shape[d]; }
}

// Kernels that determine the quantisation parameters of their output: what the descriptor held before does not matter.
static bool sets_params(const Call& c) {
    return c.kind == kRelu || c.kind == kSigm || c.kind == kSoftmax || c.kind == kL2 || c.kind == kArgmax || (c.kind == kPool && c.name.find("maxpool") != std::string::npos);
}
static void stale_params(Ten& T, Rng& r) {
    auto& p = T.t->el_params;
    if (T.t->el_type == MLI_EL_FX_8) p.fx.frac_bits = (int8_t)(r.next() % 8);
    else if (T.t->el_type == MLI_EL_FX_16) p.fx.frac_bits = (int8_t)(r.next() % 16);
    else {
        p.sa.dim = -1; p.sa.zero_point.mem.i16 = (int16_t)((int)(r.next() % 256) - 128);
        p.sa.scale.mem.i16 = (int16_t)(1 + r.next() % 32767); p.sa.scale_frac_bits.mem.i8 = (int8_t)(r.next() % 32);
    }
}

static void scramble(const std::vector<CallP>& calls, uint64_t seed) {
    for (auto& b : bufs()) fill_redzone(b, seed);
    Rng r(seed * 77 + 5);
    for (auto& c : calls) {
        for (size_t i = 0; i < c->t.size(); i++) {
            Ten& T = c->t[i];
            bool is_out = i + 1 == c->t.size();
            if (T.data.slot >= 0 && T.t->rank > 0 && T.t->rank <= 4 && !(c->kind == kHelper)) {
                if (is_out) for (size_t k = 0; k < T.data.n; k++) T.data.p[k] = (uint8_t)r.next();
                else {
                    std::vector<uint8_t> used(T.data.n, 0);
                    int es = el_size(T.t->el_type);
                    for_each_elem((int)T.t->rank, T.t->shape, [&](const uint32_t* k) { size_t o = elem_off(T.t, k) * es; for (int b = 0; b < es; b++) if (o + b < used.size()) used[o + b] = 1; });
                    for (size_t k = 0; k < T.data.n; k++) if (!used[k]) T.data.p[k] = (uint8_t)r.next();
                }
            } else if (T.data.slot >= 0 && T.t->rank == 0) for (size_t k = 0; k < T.data.n; k++) T.data.p[k] = (uint8_t)r.next();
            if (is_out && (c->kind == kLstm || c->kind == kGru) && r.next() % 2) stale_shape(T, r);
            if (is_out && T.t != c->t[0].t && sets_params(*c) && r.next() % 2) stale_params(T, r);
            if (!(c->kind == kHelper && is_out))
                for (uint32_t d = T.t->rank; d < 4; d++) { T.t->shape[d] = (uint32_t)r.next(); T.t->mem_stride[d] = (int32_t)r.next(); }
        }
        if (c->scratch.slot >= 0) for (size_t k = 0; k < c->scratch.n; k++) c->scratch.p[k] = (uint8_t)r.next();
        for (auto& e : c->extra) if (c->kind == kHelper && c->nodesc && e.second != sizeof(mli_lut)) for (size_t k = 0; k < e.second; k++) ((uint8_t*)e.first)[k] = (uint8_t)r.next();
    }
}

// ================================================================= C09
static CallP in_place(const CallP& c, const std::string& nm, bool one_desc = false);
static CallP out_over_prev(const CallP& c, const std::string& nm);

SIM_SCENARIO(C09, isolation) {
    uint32_t which = ch(kCallKinds);
    CallP c = gen_no(which, "call");
    std::vector<CallP> others;
    int n = (int)ch(3);
    for (int i = 0; i < n; i++) {
        std::string nm = "other" + std::to_string(i);
        switch (ch(4)) {
        case 0: others.push_back(c->extra.empty() && flip() ? sibling(c, nm) : twin(c, nm)); break;
        case 1: others.push_back(gen_no(which, nm)); break;
        default: others.push_back(gen_any(nm));
        }
    }
    std::vector<CallP> all = others; all.push_back(c);
    Image im0 = snapshot();
    stack_garbage(data_seed());
    forget();
    solo(*c);
    if (c->st != MLI_STATUS_OK) discard("rejected");
    Mask m; allow_result(m, *c);
    std::string d = diff(im0, m);
    if (!d.empty()) violation(std::string("stray-write ") + short_of(*c), "%s wrote outside its output: %s", c->name.c_str(), d.c_str());
    mli_tensor before; peek(im0, c->out().t, &before, sizeof before);
    if (!c->nodata && c->out().t->data.mem.pi8 != before.data.mem.pi8) violation(std::string("moved-output ") + short_of(*c), "%s changed its output's data pointer", c->name.c_str());
    Result r1 = result_of(*c);
    mix_result(r1); mix(std::hash<std::string>()(c->name));
    int reps = 1 + (int)ch(3);
    for (int k = 0; k < reps; k++) {
        restore(im0);
        if (flip()) { forget(); fault("library restarted"); }
        scramble(all, data_seed());
        fault("garbage_in_unrelated_memory");
        stack_garbage(data_seed());
        for (auto& o : others) if (flip()) { solo(*o); probe("call_in_between"); }
        if (chance(1, 3)) { solo(*c); probe("repeated_without_reset"); if (c->cell >= 0) peek(im0, c->t[c->cell].data.p, c->t[c->cell].data.p, c->t[c->cell].data.n); }
        Image im1 = snapshot();
        solo(*c);
        Mask m2; allow_result(m2, *c);
        d = diff(im1, m2);
        if (!d.empty()) violation(std::string("stray-write ") + short_of(*c), "%s wrote outside its output: %s", c->name.c_str(), d.c_str());
        Result r2 = result_of(*c);
        same_result(r1, r2, *c, "after unrelated memory was scrambled");
    }
    nontrivial();
}

// Where the arguments lie in memory is no input.
SIM_SCENARIO(C09, elsewhere) {
    CallP c = gen_any("call");
    if (!c->extra.empty()) discard("closure holds addresses");
    CallP e = relocate(c, "elsewhere");
    if (e->t.back().data.slot >= 0) fill(e->t.back().data, data_seed());
    Image im0 = snapshot();
    Mask m; allow_result(m, *c); allow_result(m, *e);
    stack_garbage(data_seed());
    solo(*c);
    if (c->st != MLI_STATUS_OK) discard("rejected");
    stack_garbage(data_seed());
    fault("arguments_relocated");
    if (flip()) { forget(); fault("library restarted"); }
    solo(*e);
    std::string d = diff(im0, m);
    if (!d.empty()) violation(std::string("stray-write ") + short_of(*c), "%s wrote outside its output: %s", c->name.c_str(), d.c_str());
    Result r1 = result_of(*c), r2 = result_of(*e);
    r1.desc.clear(); r2.desc.clear();
    same_result(r1, r2, *e, "with its arguments elsewhere in memory");
    if (!c->nodesc && desc_relative(*c, c->out().t) != desc_relative(*e, e->out().t)) violation(std::string("descriptor ") + short_of(*c), "%s: the output descriptor depends on where the arguments lie", c->name.c_str());
    mix_result(r1); mix(std::hash<std::string>()(c->name));
    nontrivial();
}

// The caller's variables and buffers serve one call after the other: what they held then is no input now.
SIM_SCENARIO(C09, reused_memory) {
    uint32_t which = ch(kCallKinds);
    int before = 1 + (int)ch(3);
    rewind_arena(true);
    forget();
    for (int i = 0; i < before; i++) {
        CallP h = chance(1, 4) ? gen_any("earlier") : gen_no(which, "earlier");
        solo(*h);
        probe("earlier_call_in_the_same_memory");
        rewind_arena(true); luts() = Luts();
    }
    CallP c = gen_no(which, "call");
    if (!c->extra.empty()) discard("closure holds addresses");
    CallP e = relocate(c, "elsewhere");
    if (e->t.back().data.slot >= 0) fill(e->t.back().data, data_seed());
    stack_garbage(data_seed());
    solo(*c);
    if (c->st != MLI_STATUS_OK) discard("rejected");
    forget(); fault("library restarted");
    stack_garbage(data_seed());
    solo(*e);
    Result r1 = result_of(*e), r2 = result_of(*c);
    r1.desc.clear(); r2.desc.clear();
    same_result(r1, r2, *c, "after other calls with arguments in the same memory");
    if (!c->nodesc && desc_relative(*c, c->out().t) != desc_relative(*e, e->out().t)) violation(std::string("descriptor ") + short_of(*c), "%s: the output descriptor depends on earlier calls", c->name.c_str());
    mix_result(r1); mix(std::hash<std::string>()(c->name));
    nontrivial();
}

// A few calls over and over in any order.
SIM_SCENARIO(C09, long_history) {
    uint32_t which = ch(kCallKinds);
    std::vector<CallP> cs;
    int k = range(1, 4);
    for (int i = 0; i < k; i++) cs.push_back(i && flip() ? gen_any("call" + std::to_string(i)) : gen_no(which, "call" + std::to_string(i)));
    Image im0 = snapshot();
    std::vector<Result> want;
    for (auto& c : cs) {
        forget();
        solo(*c);
        if (c->st != MLI_STATUS_OK) discard("rejected");
        want.push_back(result_of(*c));
        restore(im0);
    }
    forget();
    uint64_t start = steps(), one = 0;
    int n = ch(16) == 15 ? range(60, 300) : range(2, 12), i = 0;
    for (; i < n && steps() - start + one < 20000000; i++) {
        size_t j = ch((uint32_t)k);
        uint64_t t = steps();
        solo(*cs[j]);
        same_result(want[j], result_of(*cs[j]), *cs[j], "after a long history of calls");
        restore(im0);
        one = std::max(one, steps() - t);
    }
    if (i > 50) probe("more than 50 calls in one history");
    mix(i); for (auto& c : cs) mix(std::hash<std::string>()(c->name));
    nontrivial();
}

// The documentation allows the output to be the (non-scalar) input itself.
SIM_SCENARIO(C09, in_place) {
    CallP c;
    uint32_t which = ch(9);
    switch (which) {
    case 7: c = gen_convert("call"); break;
    case 8: c = gen_cell("call", flip() ? kLstm : kGru); break;
    case 0: c = gen_elt("call"); break;
    case 1: c = gen_relu("call"); break;
    case 2: c = gen_leaky("call", false); break;
    case 3: c = gen_leaky("call", true); break;
    case 4: c = gen_sigm("call"); break;
    case 5: c = gen_softmax("call"); break;
    default: c = gen_l2("call"); break;
    }
    CallP p = which == 8 ? out_over_prev(c, "inplace") : in_place(c, "inplace", which > 0 && which < 7 && flip());
    if (!p) discard("no input of the output's shape");
    Image im0 = snapshot();
    solo(*c);
    if (c->st != MLI_STATUS_OK) discard("rejected");
    Result r1 = result_of(*c);
    restore(im0);
    stack_garbage(data_seed());
    solo(*p);
    Mask m; allow_result(m, *p);
    std::string d = diff(im0, m);
    if (!d.empty()) violation(std::string("stray-write ") + short_of(*c), "%s in place wrote outside its output: %s", c->name.c_str(), d.c_str());
    if (p->st != MLI_STATUS_OK) violation(std::string("in-place-rejected ") + short_of(*c), "%s: in-place call returns status %d", c->name.c_str(), (int)p->st);
    Result r2 = result_of(*p);
    if (r1.out != r2.out || r1.cell != r2.cell) violation(std::string("in-place ") + short_of(*c), "%s: in-place result differs from the result in a separate buffer", c->name.c_str());
    mix_result(r1); mix(std::hash<std::string>()(c->name));
    nontrivial();
}
// "output and previous output tensors might use the same memory": the previous output is the first or the last row of the output.
static CallP out_over_prev(const CallP& c, const std::string& nm) {
    auto d = std::make_shared<Call>(*c);
    d->name = nm + c->name.substr(c->name.find(':'));
    Ten &out = c->t.back(), &prev = c->t[1];
    Ten o, q;
    o.t = boxed<mli_tensor>((nm + ".out descriptor").c_str()); memcpy(o.t, out.t, sizeof(mli_tensor));
    q.t = boxed<mli_tensor>((nm + ".prev_out descriptor").c_str()); memcpy(q.t, prev.t, sizeof(mli_tensor));
    o.data = alloc(out.data.n, (nm + ".out and prev_out data").c_str(), -1, 4); fill(o.data, data_seed());
    size_t row = (size_t)prev.t->shape[0] * el_size(prev.t->el_type);
    q.data = o.data;
    if (flip()) { q.data.p += o.data.n / row * row - row; probe("previous output in the last row of the output"); }
    q.data.n = row;
    memcpy(q.data.p, prev.data.p, row);
    o.t->data.mem.pi8 = (int8_t*)o.data.p; q.t->data.mem.pi8 = (int8_t*)q.data.p; q.t->data.capacity = (uint32_t)row;
    d->t[1] = q; d->t.back() = o;
    d->a.clear(); for (auto& x : d->t) d->a.push_back(x.t);
    return d;
}
static CallP in_place(const CallP& c, const std::string& nm, bool one_desc) {
    auto d = std::make_shared<Call>(*c);
    d->name = nm + c->name.substr(c->name.find(':'));
    Ten& out = c->t.back();
    // matching strides and format: a private copy of the input carries the output
    int which = 0;
    if (c->t[0].t->rank == 0 || c->t[0].t->rank != out.t->rank || memcmp(c->t[0].t->shape, out.t->shape, 4 * out.t->rank)) which = 1;
    else if (c->kind >= kEltAS && c->kind <= kEltMM && c->t[1].t->rank == out.t->rank && !memcmp(c->t[1].t->shape, out.t->shape, 4 * out.t->rank) && flip()) which = 1;
    Ten& in = c->t[which];
    if (in.t->rank != out.t->rank || memcmp(in.t->shape, out.t->shape, 4 * out.t->rank) || el_size(in.t->el_type) != el_size(out.t->el_type)) return nullptr;
    // the same shape in the other operand: both may be the output
    Ten a, o;
    a.t = boxed<mli_tensor>((nm + ".in descriptor").c_str()); memcpy(a.t, in.t, sizeof(mli_tensor));
    a.data = alloc(in.data.n, (nm + ".in/out data").c_str(), -1, 4); memcpy(a.data.p, in.data.p, in.data.n);
    a.t->data.mem.pi8 = (int8_t*)a.data.p;
    if (one_desc && in.t->el_type == out.t->el_type) {     // one descriptor says it all
        out.t->el_params = in.t->el_params;
        a.t->data.capacity = (uint32_t)a.data.n;
        o = a;
        probe("one descriptor for input and output");
    } else {
    o.t = boxed<mli_tensor>((nm + ".out descriptor").c_str()); memcpy(o.t, out.t, sizeof(mli_tensor));
    o.data = a.data; o.t->data = a.t->data; }
    memcpy(o.t->mem_stride, a.t->mem_stride, sizeof a.t->mem_stride);
    d->t[which] = a; d->t.back() = o;
    for (int i = 0; i < 4; i++) d->ostride[i] = a.t->mem_stride[i];
    d->a.clear(); for (auto& x : d->t) d->a.push_back(x.t);
    return d;
}

// ================================================================= C08
SIM_SCENARIO(C08, concurrent_calls) {
    int n = 2 + (int)(ch(2) ? ch(5) : ch(2));
    bool family = flip();                                    // calls of one kernel family share the most code
    bool alike = chance(1, 3);                               // the same kernel, types and shapes: all of it
    uint32_t which = ch(kCallKinds);
    std::vector<CallP> cs;
    for (int i = 0; i < n; i++) {
        std::string nm = "t" + std::to_string(i);
        cs.push_back(i && alike && cs[0]->extra.empty() ? sibling(cs[0], nm) : i && chance(1, 3) ? twin(cs[ch(i)], nm) : family ? gen_no(which, nm) : gen_any(nm));
        if (bufs().size() > 340) break;
    }
    n = (int)cs.size();
    Image im0 = snapshot();
    std::vector<Result> alone;
    Mask m;
    stack_garbage(data_seed());
    std::vector<uint64_t> len;
    for (auto& c : cs) {
        uint64_t s0 = steps();
        forget();
        solo(*c);
        len.push_back(steps() - s0);
        if (c->st != MLI_STATUS_OK) discard("rejected");
        alone.push_back(result_of(*c));
        allow_result(m, *c);
        restore(im0);
    }
    int rounds = 1 + (int)ch(2);
    for (int k = 0; k < rounds; k++) {
        restore(im0);
        if (flip()) { forget(); fault("library restarted"); }
        stack_garbage(data_seed());
        set_preempt_density(1 + (int)ch(3));
        for (int i = 0; i < n; i++) { Call* c = cs[i].get(); set_length_hint(spawn([c] { c->run(); }, c->name.c_str()), len[i]); }
        run_all();
        for (int i = 0; i < n; i++) same_result(alone[i], result_of(*cs[i]), *cs[i], "interleaved with other calls");
        std::string d = diff(im0, m);
        if (!d.empty()) violation("stray-write", "concurrent calls wrote outside their outputs: %s", d.c_str());
    }
    for (auto& r : alone) mix_result(r);
    nontrivial();
}

// ================================================================= C11
namespace {
struct Part {                                  // what one worker gets of one tensor
    bool sliced = false;
    uint32_t off[4], size[4];
};
struct Worker { CallP c; std::vector<mli_sub_tensor_cfg*> sub; std::string nm; };
}
static Part whole_of(const Ten& T) { Part p; for (uint32_t i = 0; i < 4; i++) { p.off[i] = 0; p.size[i] = i < T.t->rank ? T.t->shape[i] : 1; } return p; }
static std::vector<std::pair<uint32_t, uint32_t>> cut(uint32_t n, int max_parts, uint32_t unit = 1) {
    uint32_t units = n / unit;
    int k = 1 + (int)ch((uint32_t)std::min<uint32_t>(max_parts, units));
    std::vector<uint32_t> p; p.push_back(0);
    for (int i = 1; i < k; i++) p.push_back(1 + ch(units - 1));
    p.push_back(units);
    std::sort(p.begin(), p.end()); p.erase(std::unique(p.begin(), p.end()), p.end());
    std::vector<std::pair<uint32_t, uint32_t>> r;
    for (size_t i = 0; i + 1 < p.size(); i++) r.push_back({p[i] * unit, (p[i + 1] - p[i]) * unit});
    return r;
}
static void set_part(Part& p, int dim, uint32_t off, uint32_t size) { p.sliced = true; p.off[dim] = off; p.size[dim] = size; }
// Rows or columns [o, o+n) of a windowed kernel.
static void window(Part& in, int dim, uint32_t o, uint32_t n, int size, int stride, int ek, int pad_lo, uint8_t& lo, uint8_t& hi) {
    int s = (int)o * stride - pad_lo, e = s + (int)(n - 1) * stride + ek;
    lo = (uint8_t)std::max(0, -s); hi = (uint8_t)std::max(0, e - size);
    s = std::max(0, s); e = std::min(size, e);
    set_part(in, dim, (uint32_t)s, (uint32_t)(e - s));
}

SIM_SCENARIO(C11, workers) {
    CallP c;
    switch (ch(13)) {
    case 12: c = gen_resize("whole"); break;
    case 0: c = gen_elt("whole"); break;
    case 1: c = gen_relu("whole"); break;
    case 2: c = gen_leaky("whole", false); break;
    case 3: c = gen_leaky("whole", true); break;
    case 4: c = gen_sigm("whole"); break;
    case 5: c = gen_softmax("whole"); break;
    case 6: c = gen_l2("whole"); break;
    case 7: c = gen_pool("whole"); break;
    case 8: c = flip() ? gen_fc("whole") : gen_rnn_dense("whole"); break;
    case 9: c = gen_conv("whole", kConv); break;
    case 10: c = gen_conv("whole", kDw); break;
    default: c = gen_conv("whole", flip() ? kGroup : kTrans); break;
    }
    Ten& out = c->t.back();
    int rank = (int)out.t->rank;
    const uint32_t* os = out.t->shape;
    // allowed divisions of the output
    std::vector<std::vector<std::pair<uint32_t, uint32_t>>> parts;
    int left = 6;
    for (int d = 0; d < rank; d++) {
        int axis = -2; uint32_t unit = 1;
        if (c->kind == kSoftmax) axis = std::max(-1, ((mli_softmax_cfg*)c->cfg)->axis);
        if (c->kind == kL2) axis = std::max(-1, ((mli_l2_normalize_cfg*)c->cfg)->axis);
        bool ok = axis != -1 && axis != d;
        if (c->kind == kTrans && d < 2) ok = false;
        if (c->kind == kGroup && d == 2) unit = os[2] / (c->t[0].t->shape[2] / c->t[1].t->shape[2]);
        std::vector<std::pair<uint32_t, uint32_t>> p = {{0, os[d]}};
        if (ok && left > 1) p = cut(os[d], left, unit);
        left = std::max(1, left / (int)p.size());
        parts.push_back(p);
    }
    std::vector<std::array<int, 4>> idx(1, {0, 0, 0, 0});
    for (int d = 0; d < rank; d++) { std::vector<std::array<int, 4>> n; for (auto& a : idx) for (int k = 0; k < (int)parts[d].size(); k++) { auto b = a; b[d] = k; n.push_back(b); } idx = n; }
    if (idx.size() < 2) discard("not divided");
    std::vector<Worker> ws;
    for (size_t w = 0; w < idx.size(); w++) {
        Worker W; W.nm = "w" + std::to_string(w);
        W.c = std::make_shared<Call>(*c); W.c->name = W.nm + c->name.substr(c->name.find(':'));
        std::vector<Part> ps;
        for (auto& T : c->t) ps.push_back(whole_of(T));
        mli_conv2d_cfg* cc = nullptr; mli_pool_cfg* pc = nullptr;
        if (c->kind == kConv || c->kind == kDw || c->kind == kGroup || c->kind == kTrans) { cc = boxed<mli_conv2d_cfg>((W.nm + ".cfg").c_str()); memcpy(cc, c->cfg, sizeof *cc); W.c->cfg = cc; }
        if (c->kind == kPool) { pc = boxed<mli_pool_cfg>((W.nm + ".cfg").c_str()); memcpy(pc, c->cfg, sizeof *pc); W.c->cfg = pc; }
        auto* rc = c->kind == kResize ? boxed<snps_arc::metaware::mli::ResizeOpConfig>((W.nm + ".cfg").c_str()) : nullptr;
        if (rc) { memcpy(rc, c->cfg, sizeof *rc); W.c->cfg = rc; }
        for (int d = 0; d < rank; d++) {
            uint32_t o = parts[d][idx[w][d]].first, n = parts[d][idx[w][d]].second;
            if (n == os[d]) continue;
            set_part(ps.back(), d, o, n);
            const mli_tensor* in = c->t[0].t; const mli_tensor* wt = c->t.size() > 1 ? c->t[1].t : nullptr;
            switch (c->kind) {
            case kRelu: case kLeaky: case kSigm: case kSoftmax: case kL2: set_part(ps[0], d, o, n); break;
            case kPrelu: set_part(ps[0], d, o, n); if (((mli_prelu_cfg*)c->cfg)->axis == d) set_part(ps[1], d, o, n); break;
            case kEltAS: case kEltMul: case kEltMM:
                for (int k = 0; k < 2; k++) if (c->t[k].t->rank == out.t->rank && !memcmp(c->t[k].t->shape, os, 4 * rank)) set_part(ps[k], d, o, n);
                break;
            case kResize:
                if (d == 0 || d == 3) set_part(ps[0], d, o, n);
                else {
                    int off = rc->offset[d - 1] + (int)o * rc->stride[d - 1];
                    if (off >= 16 << rc->shift || off > 32767) discard("offset of a slice out of range");
                    rc->offset[d - 1] = (int16_t)off;
                }
                break;
            case kFc: set_part(ps[1], 1, o, n); set_part(ps[2], 0, o, n); break;
            case kRnn: for (int k = 0; k < c->n_in; k++) set_part(ps[2 * k + 1], 1, o, n); set_part(ps[2 * c->n_in], 0, o, n); break;
            case kPool:
                if (d == 0) window(ps[0], 0, o, n, (int)in->shape[0], pc->stride_height, pc->kernel_height, ((mli_pool_cfg*)c->cfg)->padding_top, pc->padding_top, pc->padding_bottom);
                else if (d == 1) window(ps[0], 1, o, n, (int)in->shape[1], pc->stride_width, pc->kernel_width, ((mli_pool_cfg*)c->cfg)->padding_left, pc->padding_left, pc->padding_right);
                else set_part(ps[0], 2, o, n);
                break;
            default: {
                auto* g = (mli_conv2d_cfg*)c->cfg;
                if (d == 0) window(ps[0], 0, o, n, (int)in->shape[0], g->stride_height, ((int)wt->shape[0] - 1) * g->dilation_height + 1, g->padding_top, cc->padding_top, cc->padding_bottom);
                else if (d == 1) window(ps[0], 1, o, n, (int)in->shape[1], g->stride_width, ((int)wt->shape[1] - 1) * g->dilation_width + 1, g->padding_left, cc->padding_left, cc->padding_right);
                else {
                    set_part(ps[1], 3, o, n); set_part(ps[2], 0, o, n);
                    if (c->kind == kDw) set_part(ps[0], 2, o, n);
                    if (c->kind == kGroup) { uint32_t unit = os[2] / (in->shape[2] / wt->shape[2]); set_part(ps[0], 2, o / unit * wt->shape[2], n / unit * wt->shape[2]); }
                } }
            }
        }
        for (size_t k = 0; k < c->t.size(); k++) {
            if (!ps[k].sliced) { W.sub.push_back(nullptr); continue; }
            auto* sc = boxed<mli_sub_tensor_cfg>((W.nm + ".slice" + std::to_string(k)).c_str());
            for (int i = 0; i < 4; i++) { sc->offset[i] = ps[k].off[i]; sc->size[i] = ps[k].size[i]; }
            sc->sub_tensor_rank = c->t[k].t->rank;
            W.c->a[k] = boxed<mli_tensor>((W.nm + ".sub" + std::to_string(k)).c_str());
            W.sub.push_back(sc);
        }
        ws.push_back(W);
        if (bufs().size() > 380) discard("too many buffers");
    }
    Image im0 = snapshot();
    stack_garbage(data_seed());
    solo(*c);
    if (c->st != MLI_STATUS_OK) discard("rejected");
    Result r1 = result_of(*c);
    Mask m; allow_result(m, *c);
    for (auto& W : ws) for (size_t k = 0; k < W.sub.size(); k++) if (W.sub[k]) m.allow(W.c->a[k], sizeof(mli_tensor));
    restore(im0);
    fill(out.data, data_seed());
    Image im1 = snapshot();
    if (flip()) { forget(); fault("library restarted"); }
    set_preempt_density((int)ch(4));
    set_kills(flip() ? 0 : 1 + (int)ch(3));
    for (auto& W : ws) {
        Worker* w = &W;
        spawn([w, &c] {
            for (size_t k = 0; k < w->sub.size(); k++) {
                if (!w->sub[k]) continue;
                context(w->nm + ":mli_hlp_create_subtensor");
                if (mli_hlp_create_subtensor(c->t[k].t, w->sub[k], w->c->a[k]) != MLI_STATUS_OK) violation("subtensor-rejected", "%s: mli_hlp_create_subtensor failed for tensor %zu of %s", w->nm.c_str(), k, c->name.c_str());
                if (k + 1 == w->sub.size()) for (int i = 0; i < 4; i++) (void)i;
            }
            w->c->run();
            if (w->c->st != MLI_STATUS_OK) violation(std::string("slice-rejected ") + short_of(*c), "%s: computing a slice returned status %d, the whole call succeeds", w->c->name.c_str(), (int)w->c->st);
        }, W.nm.c_str());
    }
    run_all();
    set_kills(0);
    std::string d = diff(im1, m);
    if (!d.empty()) violation(std::string("stray-write ") + short_of(*c), "workers of %s wrote outside the output: %s", c->name.c_str(), d.c_str());
    Call fake = *c; fake.st = MLI_STATUS_OK; fake.nodesc = true;
    Result r2 = result_of(fake);
    if (r1.out != r2.out) {
        size_t i = 0; while (r1.out[i] == r2.out[i]) i++;
        violation(std::string("slices ") + short_of(*c), "%s: byte %zu of the output assembled from %zu slices is 0x%02x, 0x%02x in one call", c->name.c_str(), i, ws.size(), r2.out[i], r1.out[i]);
    }
    mix_result(r1); mix(ws.size());
    nontrivial();
}

// ================================================================= C10
static void scramble_volatile(const std::vector<const Buf*>& durable, uint64_t seed) { (void)durable; (void)seed; }

SIM_SCENARIO(C10, cells) {
    int T = 2 + (int)ch(6);
    CallP c = gen_cell("whole", flip() ? kLstm : kGru, T);
    auto* cfg = (mli_rnn_cell_cfg*)c->cfg;
    bool back = cfg->direction == RNN_DIR_BACKWARD, lstm = c->kind == kLstm;
    Ten &in = c->t[0], &prev = c->t[1], &out = c->t.back();
    T = (int)in.t->shape[0];
    int es = el_size(in.t->el_type);
    size_t hb = (size_t)prev.t->shape[0] * es, in_row = (size_t)in.t->shape[1] * es;
    // buffers of the incarnations
    Ten h = mk("state.h", prev.t->el_type, 1, prev.t->shape, true);
    Ten cell; if (lstm) { cell = mk("state.cell", prev.t->el_type, 1, prev.t->shape, true); cell.t->el_params = c->t[c->cell].t->el_params; }
    uint32_t osh[2] = {(uint32_t)T, prev.t->shape[0]};
    Ten o2 = mk("chunk.out", out.t->el_type, 2, osh, true);
    o2.t->el_params = out.t->el_params;
    mli_tensor* in2 = boxed<mli_tensor>("chunk.in descriptor");
    auto* cfg2 = boxed<mli_rnn_cell_cfg>("chunk.cfg");
    Buf scratch = alloc(c->scratch.n, "chunk.scratch", -1, 4);
    std::vector<uint8_t> h0(prev.data.p, prev.data.p + hb), c0;
    if (lstm) c0.assign(c->t[c->cell].data.p, c->t[c->cell].data.p + hb);
    Image im0 = snapshot();
    stack_garbage(data_seed());
    solo(*c);
    if (c->st != MLI_STATUS_OK) discard("rejected");
    Mask m0; allow_result(m0, *c);
    std::string d0 = diff(im0, m0);
    if (!d0.empty()) violation(std::string("stray-write ") + short_of(*c), "%s wrote outside its output: %s", c->name.c_str(), d0.c_str());
    bool all = cfg->results == RNN_OUT_ALL;
    std::vector<uint8_t> want(out.data.p, out.data.p + hb * (all ? T : 1)), want_c;
    if (lstm) want_c.assign(c->t[c->cell].data.p, c->t[c->cell].data.p + hb);
    // the same whole call in the other output mode gives the same final state
    restore(im0);
    mix(hash_bytes(want)); mix(hash_bytes(want_c)); mix(T);
    // durable state
    std::vector<uint8_t> hs = h0, cs = c0;
    auto two = std::make_shared<Call>(*c);
    two->name = "chunk" + c->name.substr(c->name.find(':'));
    two->cfg = cfg2; two->scratch = scratch;
    two->t[0].t = in2; two->t[1] = h; two->t.back() = o2; if (lstm) two->t[c->cell] = cell;
    two->a.clear(); for (auto& x : two->t) two->a.push_back(x.t);
    int s = 0; int chunks = 0;
    Image clean = snapshot();
    while (s < T) {
        int len = 1 + (int)ch(T - s);
        chunks++;
        bool call_all = flip();
        auto start = [&] {                     // a new incarnation: only durable state and the model survive
            restore(clean);
            if (flip()) { forget(); fault("library restarted"); }
            uint64_t g = data_seed();
            for (auto& b : bufs()) fill_redzone(b, g);
            fill(h.data, g + 1); fill(o2.data, g + 2); fill(scratch, g + 3); fill(out.data, g + 5); fill(prev.data, g + 6);
            if (lstm) { fill(cell.data, g + 4); fill(c->t[c->cell].data, g + 7); }
            h.t->el_params = s ? out.t->el_params : prev.t->el_params;
            uint8_t* at = h.data.p;            // the state may lie in the output buffer, as after an earlier call
            uint32_t where = ch(4);
            if (where >= 2) { at = o2.data.p + (where == 2 ? 0 : (call_all ? len - 1 : 0) * hb); probe("previous output within the output buffer"); }
            h.t->data.mem.pi8 = (int8_t*)at;
            memcpy(at, hs.data(), hb); if (lstm) memcpy(cell.data.p, cs.data(), hb);
            int first = back ? T - s - len : s;
            memcpy(in2, in.t, sizeof *in2);
            in2->data.mem.pi8 = (int8_t*)in.data.p + first * in_row; in2->data.capacity = (uint32_t)(len * in_row);
            in2->shape[0] = (uint32_t)len;
            memcpy(cfg2, cfg, sizeof *cfg2);
            cfg2->results = call_all ? RNN_OUT_ALL : RNN_OUT_LAST;
            cfg2->scratch_data.mem.pi8 = (int8_t*)scratch.p;
            o2.t->shape[0] = call_all ? len : 1; o2.t->shape[1] = prev.t->shape[0]; o2.t->rank = 2; if (flip()) { Rng sr(g + 11); stale_shape(o2, sr); }
            stack_garbage(g + 9);
        };
        start();
        // the worker may die inside the kernel; it restarts the chunk from the saved state
        if (flip()) {
            set_preempt_density(3); set_kills(1 + (int)ch(2));
            bool first = true;
            spawn([&] { if (!first) start(); first = false; two->run(); }, "worker");
            run_all();
            set_kills(0);
        } else solo(*two);
        if (two->st != MLI_STATUS_OK) violation(std::string("chunk-rejected ") + short_of(*c), "%s: steps %d..%d returned status %d, the whole call succeeds", two->name.c_str(), s, s + len - 1, (int)two->st);
        const uint8_t* ob = o2.data.p;
        if (call_all && all) {
            for (int k = 0; k < len; k++)
                if (memcmp(ob + k * hb, want.data() + (size_t)(s + k) * hb, hb)) violation(std::string("step-output ") + short_of(*c), "%s: output of step %d of %d differs when the run is resumed at step %d", c->name.c_str(), s + k, T, s);
        }
        hs.assign(ob + (call_all ? (len - 1) * hb : 0), ob + (call_all ? len * hb : hb));
        if (lstm) cs.assign(cell.data.p, cell.data.p + hb);
        if (all && memcmp(hs.data(), want.data() + (size_t)(s + len - 1) * hb, hb)) violation(std::string("state ") + short_of(*c), "%s: hidden state after step %d differs when the run is resumed at step %d", c->name.c_str(), s + len - 1, s);
        s += len;
        fault("crash_between_steps");
    }
    if (memcmp(hs.data(), want.data() + want.size() - hb, hb)) violation(std::string("final-state ") + short_of(*c), "%s: final hidden state differs after %d consecutive calls", c->name.c_str(), chunks);
    if (lstm && cs != want_c) violation(std::string("final-cell ") + short_of(*c), "%s: final cell state differs after %d consecutive calls", c->name.c_str(), chunks);
    mix(chunks);
    if (chunks > 1) nontrivial();
}

// A recurrence built by the user from the rnn-dense kernel.
SIM_SCENARIO(C10, rnn_dense_loop) {
    uint32_t o = 1 + ch(8);
    CallP c = gen_rnn_dense("step", 2 + (int)ch(2), (int)o);
    int T = 2 + (int)ch(5);
    Ten &x = c->t[0], &h = c->t[2], &out = c->t.back();
    int es = el_size(x.t->el_type);
    size_t xb = (size_t)x.t->shape[0] * es, hb = (size_t)o * es;
    h.t->el_params = out.t->el_params;
    Rng r(data_seed());
    std::vector<std::vector<uint8_t>> xs(T, std::vector<uint8_t>(xb));
    for (auto& v : xs) for (auto& b : v) b = (uint8_t)r.next();
    Image im0 = snapshot();
    std::vector<uint8_t> st(h.data.p, h.data.p + hb);
    std::vector<std::vector<uint8_t>> want;
    for (int t = 0; t < T; t++) {              // one healthy run
        memcpy(x.data.p, xs[t].data(), xb);
        solo(*c);
        if (c->st != MLI_STATUS_OK) discard("rejected");
        memcpy(h.data.p, out.data.p, hb);
        want.emplace_back(out.data.p, out.data.p + hb);
    }
    for (int t = 0; t < T; t++) {              // every step a new incarnation
        restore(im0);
        if (flip()) { forget(); fault("library restarted"); }
        scramble({c}, data_seed());
        stack_garbage(data_seed());
        memcpy(x.data.p, xs[t].data(), xb); memcpy(h.data.p, st.data(), hb);
        solo(*c);
        st.assign(out.data.p, out.data.p + hb);
        fault("crash_between_steps");
        if (st != want[t]) violation(std::string("state ") + short_of(*c), "%s: state after step %d differs when every step starts from saved state alone", c->name.c_str(), t);
        mix(hash_bytes(st));
    }
    nontrivial();
}

// ================================================================= C14
SIM_SCENARIO(C14, valid_calls) {
    CallP c = gen_any("call");
    Image im0 = snapshot();
    solo(*c);
    if (c->st != MLI_STATUS_OK) violation(std::string("valid-rejected ") + short_of(*c), "%s: a valid call returned status %d", c->name.c_str(), (int)c->st);
    mix_result(result_of(*c)); mix(std::hash<std::string>()(c->name));
    (void)im0;
    nontrivial();
}

// One argument of a valid call is made invalid. Every entry violates a documented requirement of the call.
struct Harm { std::string what; std::function<void()> apply; };
// "_k3x3" and the like: the function is specialised for one kernel size
static bool fixed_kernel(const std::string& n) {
    for (size_t i = 0; i + 3 < n.size(); i++) if (n[i] == '_' && n[i + 1] == 'k' && isdigit(n[i + 2]) && n[i + 3] == 'x') return true;
    return false;
}
// Gives a tensor fresh memory for its shape: dense except for `inner`, the stride of the last dimension, and `gap` elements in each of dimension 0.
static void relocate(mli_tensor* t, int inner, int gap) {
    int64_t next = inner;
    for (int i = (int)t->rank - 1; i >= 0; i--) { t->mem_stride[i] = (int32_t)(next + (i == 0 ? gap : 0)); next = (int64_t)t->mem_stride[i] * t->shape[i]; }
    Buf b = alloc((size_t)next * el_size(t->el_type), "moved data", -1, 4);
    fill(b, data_seed());
    t->data.mem.pi8 = (int8_t*)b.p; t->data.capacity = (uint32_t)b.n;
}
// Parameters along an axis, with the values which the tensor has now.
static void per_axis(Ten& T, int d) {
    mli_element_params q = T.t->el_params;
    int16_t sc = q.sa.dim < 0 ? q.sa.scale.mem.i16 : q.sa.scale.mem.pi16[0], zp = q.sa.dim < 0 ? q.sa.zero_point.mem.i16 : q.sa.zero_point.mem.pi16[0];
    int8_t fr = q.sa.dim < 0 ? q.sa.scale_frac_bits.mem.i8 : q.sa.scale_frac_bits.mem.pi8[0];
    Ten X = T;                                 // the original arrays stay known to T
    int n = (int)T.t->shape[d];
    set_axis_sa(X, d, n, "harm");
    for (int i = 0; i < n; i++) { memcpy(X.scale.p + 2 * i, &sc, 2); memcpy(X.zp.p + 2 * i, &zp, 2); X.frac.p[i] = (uint8_t)fr; }
}
static std::vector<Harm> harms_of(Call& c, size_t& general) {
    std::vector<Harm> h;
    auto add = [&](const std::string& w, std::function<void()> f) { h.push_back({w, f}); };
    static const char* kMac[] = {"in", "weights", "bias", "out"};
    auto role = [&](size_t i) -> std::string {
        if (i + 1 == c.t.size()) return "out";
        switch (c.kind) {
        case kConv: case kDw: case kGroup: case kTrans: case kFc: return kMac[i];
        case kLstm: case kGru: { static const char* n[] = {"in", "prev_out", "weights_in", "weights_out", "bias", "cell"}; return n[i]; }
        case kRnn: return (int)i == 2 * c.n_in ? "bias" : i % 2 ? "weights" : "in";
        case kLeaky: case kPrelu: return i ? "slope" : "in";
        case kL2: return i ? "epsilon" : "in";
        default: return i == 0 ? "in" : "in2";
        }
    };
    bool query = c.kind == kHelper && c.nodesc;
    bool subt = c.kind == kHelper && !c.nodesc;
    if (query || c.kind == kResize) return h;    // no status to report a violation with
    for (size_t i = 0; i < c.t.size(); i++) {
        Ten& T = c.t[i];
        mli_tensor* t = T.t;
        std::string r = role(i);
        if (r == "epsilon") continue;  // documented as unused
        bool is_out = i + 1 == c.t.size();
        add("null " + r, [&c, i] { c.a[i] = nullptr; });
        if (subt && is_out) continue;
        if (t->rank > 0 && !subt) add("null data of " + r, [t] { t->data.mem.pi8 = nullptr; });
        add("rank 5 of " + r, [t] { t->rank = 5; });
        add("huge rank of " + r, [t] { t->rank = 0xffffffffu; });
        for (uint32_t d = 0; d < t->rank; d++) {
            add("zero stride of " + r, [t, d] { t->mem_stride[d] = 0; });
            add("negative stride of " + r, [t, d] { t->mem_stride[d] = -t->mem_stride[d]; });
            add("zero dimension of " + r, [t, d] { t->shape[d] = 0; });
            static const uint32_t kHuge[] = {0x10000, 0x1000000, 0x10000001, 0x20000000, 0x40000000, 0x40000001, 0x7fffffff, 0x80000000, 0xffffffff};
            uint32_t huge = any(kHuge);
            add("huge dimension of " + r, [t, d, huge] { t->shape[d] = huge; });
            if (t->shape[d] > 1) add("huge stride of " + r, [t, d, huge] { t->mem_stride[d] = (int32_t)huge; });
        }
        if (t->rank > 0) {
            size_t span = span_elems((int)t->rank, t->shape, t->mem_stride) * el_size(t->el_type);
            add("short capacity of " + r, [t, span] { t->data.capacity = (uint32_t)(span - 1); });
            add("zero capacity of " + r, [t] { t->data.capacity = 0; });
        }
        if (!subt && c.kind != kConvert) {
            static const mli_element_type k[] = {MLI_EL_FX_8, MLI_EL_FX_16, MLI_EL_SA_8, MLI_EL_SA_32, MLI_EL_FP_32};
            mli_element_type w = any(k);
            if (w != t->el_type) add("type of " + r, [t, w] { t->el_type = w; if (w == MLI_EL_SA_8 || w == MLI_EL_SA_32) { if (t->rank) set_scalar_sa(t, 0, 1 << 14, 14); } });
        }
        if (c.kind != kPermute && c.kind != kArgmax && c.kind != kConvert && !subt && t->rank > 0 && t->shape[t->rank - 1] > 1 && r != "epsilon" && r != "slope")
            add("inner stride of " + r, [t] { uint32_t d = t->rank - 1; uint32_t n = t->shape[d]; if (n > 2) { t->shape[d] = (n + 1) / 2; } t->mem_stride[d] = 2; });
        if (t->rank > 0 && !subt && c.kind != kPermute) {
            if (t->shape[t->rank - 1] > 1) add("strided " + r, [t] { relocate(t, 2, 0); });
        }
        bool dense = (c.kind == kArgmax && is_out) || ((c.kind == kFc || c.kind == kRnn || c.kind == kLstm || c.kind == kGru) && (r == "in" || r == "out")) || (subt && c.name.find("point_to") != std::string::npos);
        if (dense && t->rank > 1 && t->shape[0] > 1) add("gap in " + r, [t] { relocate(t, 1, 1); });
        uint32_t elems = 1; for (uint32_t d = 0; d < t->rank; d++) elems *= t->shape[d];
        bool elt = c.kind == kEltAS || c.kind == kEltMul || c.kind == kEltMM;
        bool any_rank = (subt || (elt && elems == 1) || r == "slope" || (c.kind == kArgmax && !is_out) || ((c.kind == kFc || c.kind == kRnn) && r == "in") || ((c.kind == kLstm || c.kind == kGru) && is_out));
        if (!any_rank && t->rank > 0) {
            if (t->rank < 4) add("rank + 1 of " + r, [t] { t->shape[t->rank] = 1; t->mem_stride[t->rank] = 1; t->rank++; });
            if (t->rank > 1 && !(elt && elems == t->shape[t->rank - 1])) add("rank - 1 of " + r, [t] { t->rank--; t->mem_stride[t->rank - 1] = 1; });
        }
        bool mac = c.kind == kConv || c.kind == kDw || c.kind == kGroup || c.kind == kTrans || c.kind == kFc, rec = c.kind == kRnn || c.kind == kLstm || c.kind == kGru;
        bool cell = r == "prev_out" || r == "cell", par = r == "weights" || r == "weights_in" || r == "weights_out" || r == "bias";
        if ((t->el_type == MLI_EL_SA_8 || t->el_type == MLI_EL_SA_32) && !subt && c.kind != kPermute && c.kind != kConvert) {
            bool whole = r == "in" || elt || cell || r == "slope" || (is_out && (mac || rec || c.kind == kPool || c.kind == kLeaky || c.kind == kPrelu)) || (c.kind == kRnn && par);
            if (c.kind == kArgmax && is_out) whole = false;
            if (whole && t->el_params.sa.dim < 0 && t->rank > 0) add("per-axis parameters of " + r, [&T] { per_axis(T, 0); });
            if ((mac || c.kind == kLstm || c.kind == kGru) && par) {
                if (t->el_params.sa.dim < 0) { int d = r == "bias" ? 0 : (int)ch(t->rank); add("per-axis parameters of only " + r, [&T, d] { per_axis(T, d); }); }
                else if (t->rank > 1) { int d = t->el_params.sa.dim ? 0 : 1; add("another quantisation axis of " + r, [&T, d] { per_axis(T, d); }); }
            }
            bool byte = whole && !par && r != "slope" && c.kind != kPool && c.kind != kArgmax;
            if (byte && t->el_params.sa.dim < 0) {
                add("zero point 128 of " + r, [t] { t->el_params.sa.zero_point.mem.i16 = 128; });
                add("zero point -129 of " + r, [t] { t->el_params.sa.zero_point.mem.i16 = -129; });
            }
            if (byte && t->el_params.sa.dim < 0) {
                add("capacity of the scalar scale of " + r, [t] { t->el_params.sa.scale.capacity = 2; });
                add("capacity of the scalar zero point of " + r, [t] { t->el_params.sa.zero_point.capacity = 2; });
                add("capacity of the scalar scale frac bits of " + r, [t] { t->el_params.sa.scale_frac_bits.capacity = 1; });
            }
            if (mac && r == "bias") {
                if (t->el_params.sa.dim < 0) add("scale of bias", [t] { t->el_params.sa.scale.mem.i16 /= 2; });
                else { Buf sc = T.scale; uint32_t k = ch((uint32_t)(T.scale.n / 2)); add("a scale of bias", [sc, k] { int16_t v; memcpy(&v, sc.p + 2 * k, 2); v /= 2; memcpy(sc.p + 2 * k, &v, 2); }); }
            }
        }
        if (t->el_type == MLI_EL_SA_8 || t->el_type == MLI_EL_SA_32) {
            bool keeps = !is_out || c.kind == kConv || c.kind == kDw || c.kind == kGroup || c.kind == kTrans || c.kind == kFc || c.kind == kRnn || c.kind == kConvert;
            if (c.kind == kPool || c.kind == kArgmax || r == "epsilon" || (c.kind == kPermute && t->el_params.sa.dim < 0)) keeps = false;  // parameters the kernel has no use for
            if (t->el_params.sa.dim < 0) {
                if (keeps && !subt) add("scale 0 of " + r, [t] { t->el_params.sa.scale.mem.i16 = 0; });
                if (keeps && !subt) add("negative scale of " + r, [t] { t->el_params.sa.scale.mem.i16 = (int16_t)-t->el_params.sa.scale.mem.i16; });
                if (keeps && (r == "weights" || r == "weights_in" || r == "weights_out" || r == "bias")) add("zero point of " + r, [t] { t->el_params.sa.zero_point.mem.i16 = 1; });
            } else if (keeps && !subt) {
                uint32_t n = t->shape[t->el_params.sa.dim];
                uint32_t k = ch(n);
                Buf sc = T.scale;
                add("scale 0 of " + r, [sc, k] { memset(sc.p + 2 * k, 0, 2); });
                add("null scales of " + r, [t] { t->el_params.sa.scale.mem.pi16 = nullptr; });
                add("null zero points of " + r, [t] { t->el_params.sa.zero_point.mem.pi16 = nullptr; });
                add("null scale frac bits of " + r, [t] { t->el_params.sa.scale_frac_bits.mem.pi8 = nullptr; });
                add("short scales of " + r, [t, n] { t->el_params.sa.scale.capacity = 2 * n - 1; });
                add("short zero points of " + r, [t, n] { t->el_params.sa.zero_point.capacity = 2 * n - 1; });
                add("short scale frac bits of " + r, [t, n] { t->el_params.sa.scale_frac_bits.capacity = n - 1; });
                add("quantisation axis of " + r, [t] { t->el_params.sa.dim = (int)t->rank; });
            }
        }
    }
    auto dec = [&](size_t i, int d) {
        mli_tensor* t = c.t[i].t;
        if ((int)t->rank > d && t->shape[d] > 1) add("dimension " + std::to_string(d) + " of " + role(i), [t, d] { t->shape[d] -= 1; });
    };
    // the same with one more element, and memory for it
    auto inc = [&](size_t i, int d) {
        mli_tensor* t = c.t[i].t;
        if ((int)t->rank > d) add("larger dimension " + std::to_string(d) + " of " + role(i), [t, d] { t->shape[d] += 1; relocate(t, 1, 0); });
    };
    auto both = [&](size_t i, int d) { dec(i, d); inc(i, d); };
    // the output begins in the last element of an input, or ends in its first one
    auto overlap = [&](size_t i) {
        mli_tensor *in = c.t[i].t, *out = c.t.back().t;
        if (in->rank == 0) return;
        add("out overlapping the end of " + role(i), [in, out] { size_t es = (size_t)el_size(in->el_type); out->data.mem.pi8 = in->data.mem.pi8 + (in->data.capacity / es - 1) * es; });
        add("out overlapping the start of " + role(i), [in, out] { size_t es = (size_t)el_size(out->el_type); out->data.mem.pi8 = in->data.mem.pi8 - (out->data.capacity / es - 1) * es; });
    };
    general = h.size();
    if (c.cfg) add("null cfg", [&c] { c.cfg = nullptr; });
    if (c.lut1) add("null table", [&c] { c.lut1 = nullptr; });
    if (c.lut2) add("null second table", [&c] { c.lut2 = nullptr; });
    if (c.lut1) add("short table", [&c] { const_cast<mli_lut*>(c.lut1)->data.capacity -= 1; });
    if (c.lut2) add("short second table", [&c] { const_cast<mli_lut*>(c.lut2)->data.capacity -= 1; });
    size_t o = c.t.size() - 1;
    switch (c.kind) {
    case kConv: case kDw: case kGroup: case kTrans: {
        auto* g = (mli_conv2d_cfg*)c.cfg;
        mli_tensor *in = c.t[0].t, *w = c.t[1].t, *out = c.t[3].t;
        int k[2] = {(int)w->shape[0], (int)w->shape[1]};
        bool fixed = fixed_kernel(c.name);
        if (fixed) { both(1, 0); both(1, 1); }
        if (c.kind != kGroup || w->shape[2] > 1) both(0, 2);
        if (c.kind == kConv || c.kind == kTrans) both(1, 2);
        if (c.kind == kDw) inc(1, 2);
        both(1, 3); both(2, 0); both(3, 2); overlap(0);
        if (c.kind == kTrans) { add("dilation_height 2", [g] { g->dilation_height = 2; }); add("dilation_width 2", [g] { g->dilation_width = 2; }); }
        add("stride_height 0", [g] { g->stride_height = 0; }); add("stride_width 0", [g] { g->stride_width = 0; });
        if (c.kind != kTrans) { add("dilation_height 0", [g] { g->dilation_height = 0; }); add("dilation_width 0", [g] { g->dilation_width = 0; }); }
        int dh = c.kind == kTrans ? 1 : g->dilation_height, dw = c.kind == kTrans ? 1 : g->dilation_width;
        int eh = (k[0] - 1) * dh + 1, ew = (k[1] - 1) * dw + 1;
        add("padding_top", [g, eh] { g->padding_top = (uint8_t)eh; }); add("padding_bottom", [g, eh] { g->padding_bottom = (uint8_t)eh; });
        add("padding_left", [g, ew] { g->padding_left = (uint8_t)ew; }); add("padding_right", [g, ew] { g->padding_right = (uint8_t)ew; });
        if (c.kind != kTrans) {
            int nh = (int)(out->shape[0] - 1) * g->stride_height + eh - g->padding_top - g->padding_bottom - 1, nw = (int)(out->shape[1] - 1) * g->stride_width + ew - g->padding_left - g->padding_right - 1;
            if (nh >= 1) add("input height", [in, nh] { in->shape[0] = (uint32_t)nh; });
            if (nw >= 1) add("input width", [in, nw] { in->shape[1] = (uint32_t)nw; });
        } else if (c.name.find("_str2") != std::string::npos) { add("fixed stride_height", [g] { g->stride_height = 1; }); add("fixed stride_width", [g] { g->stride_width = 1; }); }
        if (c.t[0].data.n >= c.t[3].data.n) add("overlapping in and out", [&c] { c.t[3].t->data.mem.pi8 = c.t[0].t->data.mem.pi8; });
        if (c.ty != 2) {
            mli_tensor* b = c.t[2].t;
            int acc = in->el_params.fx.frac_bits + w->el_params.fx.frac_bits;
            add("frac bits of bias", [b, acc] { b->el_params.fx.frac_bits = (int8_t)(acc + 1); });
            add("frac bits of out", [out, acc] { out->el_params.fx.frac_bits = (int8_t)(acc + 1); });
        }
        break; }
    case kPool: {
        auto* g = (mli_pool_cfg*)c.cfg;
        mli_tensor *in = c.t[0].t, *out = c.t[1].t;
        int eh = g->kernel_height, ew = g->kernel_width;
        both(0, 2); both(1, 2); overlap(0);
        add("stride_height 0", [g] { g->stride_height = 0; }); add("stride_width 0", [g] { g->stride_width = 0; });
        add("padding_top", [g, eh] { g->padding_top = (uint8_t)eh; }); add("padding_bottom", [g, eh] { g->padding_bottom = (uint8_t)eh; });
        add("padding_left", [g, ew] { g->padding_left = (uint8_t)ew; }); add("padding_right", [g, ew] { g->padding_right = (uint8_t)ew; });
        if (fixed_kernel(c.name)) { add("fixed kernel_height", [g] { g->kernel_height -= 1; }); add("fixed kernel_width", [g] { g->kernel_width -= 1; }); }
        add("kernel_height 0", [g] { g->kernel_height = 0; }); add("kernel_width 0", [g] { g->kernel_width = 0; });
        int nh = (int)(out->shape[0] - 1) * g->stride_height + eh - g->padding_top - g->padding_bottom - 1, nw = (int)(out->shape[1] - 1) * g->stride_width + ew - g->padding_left - g->padding_right - 1;
        if (nh >= 1) add("input height", [in, nh] { in->shape[0] = (uint32_t)nh; });
        if (nw >= 1) add("input width", [in, nw] { in->shape[1] = (uint32_t)nw; });
        if (c.t[0].data.n >= c.t[1].data.n) add("overlapping in and out", [&c] { c.t[1].t->data.mem.pi8 = c.t[0].t->data.mem.pi8; });
        break; }
    case kFc: {
        mli_tensor *in = c.t[0].t, *w = c.t[1].t, *b = c.t[2].t, *out = c.t[3].t;
        both(0, (int)in->rank - 1); both(1, 0); both(1, 1); both(2, 0); both(3, 0); overlap(0);
        if (c.t[0].data.n >= c.t[3].data.n) add("overlapping in and out", [&c] { c.t[3].t->data.mem.pi8 = c.t[0].t->data.mem.pi8; });
        if (c.ty != 2) {
            int acc = in->el_params.fx.frac_bits + w->el_params.fx.frac_bits;
            add("frac bits of bias", [b, acc] { b->el_params.fx.frac_bits = (int8_t)(acc + 1); });
            add("frac bits of out", [out, acc] { out->el_params.fx.frac_bits = (int8_t)(acc + 1); });
        }
        break; }
    case kRnn: {
        auto* g = (mli_rnn_dense_cfg*)c.cfg;
        for (int i = 0; i < c.n_in; i++) { both(2 * i, 0); both(2 * i + 1, 0); both(2 * i + 1, 1); overlap(2 * i); }
        both(2 * c.n_in, 0); both(o, 0);
        if (c.ty != 2) {
            mli_tensor *b = c.t[2 * c.n_in].t, *out = c.t[o].t;
            for (int i = 0; i < c.n_in; i++) {
                int acc = c.t[2 * i].t->el_params.fx.frac_bits + c.t[2 * i + 1].t->el_params.fx.frac_bits;
                if (i == 0) add("frac bits of bias", [b, acc] { b->el_params.fx.frac_bits = (int8_t)(acc + 1); });
                add("frac bits of out", [out, acc] { out->el_params.fx.frac_bits = (int8_t)(acc + 1); });
            }
        }
        add("inputs_num 0", [g] { g->inputs_num = 0; }); add("inputs_num too big", [g] { g->inputs_num = 17; });
        break; }
    case kLstm: case kGru: {
        auto* g = (mli_rnn_cell_cfg*)c.cfg;
        both(0, 1); both(1, 0);
        for (int i = 2; i <= 3; i++) for (int d = 0; d < 3; d++) both(i, d);
        both(4, 0); both(4, 1); if (c.kind == kLstm) both(5, 0);
        mli_tensor* in = c.t[0].t;
        if (c.ty != 2) {
            mli_tensor* b = c.t[4].t;
            int acc = in->el_params.fx.frac_bits + c.t[2].t->el_params.fx.frac_bits;
            add("frac bits of bias", [b, acc] { b->el_params.fx.frac_bits = (int8_t)(acc + 1); });
        }
        add("scratch overlapping in", [g, in] { g->scratch_data.mem.pi8 = in->data.mem.pi8; });
        add("scratch overlapping the end of in", [g, in] { size_t es = (size_t)el_size(in->el_type); g->scratch_data.mem.pi8 = in->data.mem.pi8 + (in->data.capacity / es - 1) * es; });
        add("null scratch", [g] { g->scratch_data.mem.pi8 = nullptr; });
        add("short scratch", [g] { g->scratch_data.capacity -= 1; });
        break; }
    case kPrelu: { auto* g = (mli_prelu_cfg*)c.cfg; mli_tensor* t = c.t[0].t; add("axis", [g, t] { g->axis = (int)t->rank; });
        if (g->axis >= 0) dec(1, g->axis);
        if (g->axis >= 0) dec(0, g->axis);
        for (int d = 0; d < (int)c.t[1].t->rank; d++) inc(1, d);
        } [[fallthrough]];
    case kLeaky:
        for (int d = 0; d < (int)c.t[0].t->rank; d++) { both(0, d); both(2, d); }
        if (c.kind == kLeaky) for (int d = 0; d < (int)c.t[1].t->rank; d++) inc(1, d);
        if (c.ty != 2) { mli_tensor* t = c.t[2].t; add("frac bits of out", [t] { t->el_params.fx.frac_bits++; }); }
        break;
    case kRelu: case kSigm: case kConvert:
        for (int d = 0; d < (int)c.t[0].t->rank; d++) { both(0, d); both(1, d); }
        if (c.kind == kConvert && c.t[0].t->rank > 1 && c.t[0].scale.n && c.t[1].scale.n) { Ten& T = c.t[1]; int d = T.t->el_params.sa.dim ? 0 : 1; add("another quantisation axis of out", [&T, d] { per_axis(T, d); }); }
        break;
    case kSoftmax: { auto* g = (mli_softmax_cfg*)c.cfg; mli_tensor* t = c.t[0].t; add("axis", [g, t] { g->axis = (int)t->rank; });
        for (int d = 0; d < (int)t->rank; d++) { both(0, d); both(1, d); }
        break; }
    case kL2: { auto* g = (mli_l2_normalize_cfg*)c.cfg; mli_tensor* t = c.t[0].t; add("axis", [g, t] { g->axis = (int)t->rank; });
        for (int d = 0; d < (int)t->rank; d++) { both(0, d); both(2, d); }
        break; }
    case kEltAS: case kEltMul: case kEltMM:
        for (size_t i = 0; i < 2; i++) { mli_tensor* t = c.t[i].t; uint32_t n = 1; for (uint32_t d = 0; d < t->rank; d++) n *= t->shape[d];
            mli_tensor* u = c.t[1 - i].t; uint32_t m = 1; for (uint32_t d = 0; d < u->rank; d++) m *= u->shape[d];
            if (t->rank && m > 1) for (uint32_t d = 0; d < t->rank; d++) if (t->shape[d] > 1 && n / t->shape[d] * (t->shape[d] - 1) > 1) both(i, (int)d); }
        { mli_tensor* t = c.t[2].t; uint32_t n = 1; for (uint32_t d = 0; d < t->rank; d++) n *= t->shape[d]; if (n > 1) for (uint32_t d = 0; d < t->rank; d++) both(2, (int)d); }
        if (c.kind == kEltMM) { mli_tensor* t = c.t[1].t;
            if (c.ty != 2) add("frac bits of in2", [t] { t->el_params.fx.frac_bits++; });
            else { add("scale of in2", [t] { t->el_params.sa.scale.mem.i16 /= 2; }); add("zero point of in2", [t] { t->el_params.sa.zero_point.mem.i16 += t->el_params.sa.zero_point.mem.i16 > 0 ? -1 : 1; }); add("scale frac bits of in2", [t] { t->el_params.sa.scale_frac_bits.mem.i8++; }); } }
        break;
    case kPermute: {
        auto* g = (mli_permute_cfg*)c.cfg; int rk = (int)c.t[0].t->rank, k = (int)ch(rk);
        for (int d = 0; d < rk; d++) both(1, d);
        overlap(0);
        add("perm_dim out of range", [g, rk, k] { g->perm_dim[k] = (uint8_t)rk; });
        if (rk > 1) add("perm_dim repeated", [g, rk, k] { g->perm_dim[k] = g->perm_dim[(k + 1) % rk]; });
        break; }
    case kArgmax: {
        auto* g = (mli_argmax_cfg*)c.cfg; mli_tensor* t = c.t[0].t;
        uint32_t n = 1; for (uint32_t d = 0; d < t->rank; d++) n *= t->shape[d];
        if (g->axis >= 0) n /= t->shape[g->axis];
        both(1, 0); both(1, 1);
        add("axis", [g, t] { g->axis = (int)t->rank; }); add("topk 0", [g] { g->topk = 0; }); add("negative topk", [g] { g->topk = -1; }); add("topk too big", [g, n] { g->topk = (int)n + 1; });
        break; }
    case kHelper:
        if (c.name.find("create_subtensor") != std::string::npos) {
            auto* g = (mli_sub_tensor_cfg*)c.cfg; mli_tensor* t = c.t[0].t;
            uint32_t k = ch(t->rank);
            add("offset out of range", [g, t, k] { g->offset[k] = t->shape[k]; });
            add("size out of range", [g, t, k] { g->size[k] = t->shape[k] - g->offset[k] + 1; });
            if (g->offset[k]) add("huge size", [g, k] { g->size[k] = 0u - g->offset[k]; });
            add("rank too big", [g, t] { g->sub_tensor_rank = (uint8_t)(t->rank + 1); });
        } else {
            auto* g = (mli_point_to_subtsr_cfg*)c.cfg; mli_tensor* t = c.t[0].t;
            uint32_t k = ch(g->coord_num);
            if (t->shape[k] < 256) add("start_coord out of range", [g, t, k] { g->start_coord[k] = (uint8_t)t->shape[k]; });
            add("coord_num 0", [g] { g->coord_num = 0; });
            add("coord_num too big", [g, t] { g->coord_num = (uint8_t)(t->rank + 1); });
            uint32_t l = g->coord_num - 1;
            if (t->shape[l] - g->start_coord[l] < 255) add("first_out_dim_size out of range", [g, t, l] { g->first_out_dim_size = (uint8_t)(t->shape[l] - g->start_coord[l] + 1); });
        }
        break;
    default: break;
    }
    return h;
}
SIM_SCENARIO(C14, invalid_calls) {
    if (strcmp(config_name(), "rc")) discard("build without return codes");
    CallP c = gen_any("call");
    size_t general = 0;
    std::vector<Harm> h = harms_of(*c, general);
    if (general > h.size()) general = h.size();
    if (h.empty()) discard("no documented requirement to violate");
    Image im0 = snapshot();
    solo(*c);
    if (c->st != MLI_STATUS_OK) violation(std::string("valid-rejected ") + short_of(*c), "%s: a valid call returned status %d", c->name.c_str(), (int)c->st);
    Result good = result_of(*c);
    restore(im0);
    int n = 1 + (int)ch(5);
    std::string name = c->name;
    for (int k = 0; k < n; k++) {
        auto saved = *c;
        const Harm& x = general < h.size() && chance(1, 3) ? h[general + ch((uint32_t)(h.size() - general))] : pick(h);
        c->name = name + " with bad argument: " + x.what;
        x.apply();
        Image im1 = snapshot();
        stack_garbage(data_seed());
        note("%s", c->name.c_str());
        solo(*c);
        fault("invalid_argument");
        std::string d = diff(im1);
        if (c->st == MLI_STATUS_OK) violation(std::string("invalid-accepted ") + short_of(*c), "%s: returned MLI_STATUS_OK; memory: %s", c->name.c_str(), d.empty() ? "unchanged" : d.c_str());
        if (!d.empty()) violation(std::string("invalid-wrote ") + short_of(*c), "%s: returned status %d but wrote: %s", c->name.c_str(), (int)c->st, d.c_str());
        mix(c->st); mix(std::hash<std::string>()(c->name));
        *c = saved;
        restore(im0);
    }
    // no lasting effect
    stack_garbage(data_seed());
    solo(*c);
    Result again = result_of(*c);
    same_result(good, again, *c, "after rejected calls");
    nontrivial();
}
}  // namespace sim
