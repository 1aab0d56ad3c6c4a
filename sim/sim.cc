#include "sim.h"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <fcntl.h>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

#include <sys/personality.h>

namespace sim {
const char* config_name();

// ================================================================= shared result page
static const uint32_t kMaxChoices = 1u << 18;
static const int kMaxCounters = 300;
enum Outcome { kRunning = 0, kOk, kViolation, kDiscard, kHang };
struct Shared {
    int outcome;
    char key[256];
    char msg[2048];
    char ctx[256];
    uint32_t nchoices;
    uint32_t overflow;
    uint64_t hash, sched_hash, steps, switches;
    int nontrivial;
    struct { char name[48]; uint64_t n; int is_fault; } counters[kMaxCounters];
    uint32_t ncounters;
    uint8_t cover[8192];          // bitmap of hashed basic blocks, accumulated over the worker's runs
    uint32_t choices[kMaxChoices];
    uint32_t bounds[kMaxChoices];
    uint32_t trace_len;
    char trace[1 << 20];
};
static Shared* S;
static bool g_noting = false;

// ================================================================= choices
static uint64_t g_rng;
static const std::vector<uint32_t>* g_replay = nullptr;
static uint64_t rnd() {
    uint64_t z = (g_rng += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
static void put_choice(uint32_t v, uint32_t n) {
    if (S->nchoices < kMaxChoices) { S->choices[S->nchoices] = v; S->bounds[S->nchoices] = n; S->nchoices++; }
    else S->overflow = 1;
}
uint32_t ch(uint32_t n) {
    if (n == 0) n = 1;
    uint32_t v;
    if (g_replay) v = S->nchoices < g_replay->size() ? (*g_replay)[S->nchoices] % n : 0;
    else v = (uint32_t)(rnd() % n);
    put_choice(v, n);
    return v;
}
bool chance(uint32_t num, uint32_t den) {
    uint32_t v;
    if (g_replay) v = S->nchoices < g_replay->size() ? ((*g_replay)[S->nchoices] & 1) : 0;
    else v = (uint32_t)(rnd() % den) < num ? 1 : 0;
    put_choice(v, 2);
    return v != 0;
}
uint64_t data_seed() { return ch(1u << 16) + 1; }

// ================================================================= outcome
void mix(uint64_t v) { S->hash = (S->hash ^ v) * 0x100000001B3ull; S->hash ^= S->hash >> 29; }
static void mix_sched(uint64_t v) { S->sched_hash = (S->sched_hash ^ v) * 0x100000001B3ull; S->sched_hash ^= S->sched_hash >> 31; }
static volatile int g_done = 0;
static uint64_t g_steps = 0, g_step_limit = 0, g_switches = 0;
[[noreturn]] static void finish(int outcome) {
    g_done = 1;
    S->steps = g_steps; S->switches = g_switches;
    S->outcome = outcome;
    _exit(0);
}
void violation(const std::string& key, const char* fmt, ...) {
    g_done = 1;
    snprintf(S->key, sizeof S->key, "%s", key.c_str());
    va_list ap; va_start(ap, fmt);
    vsnprintf(S->msg, sizeof S->msg, fmt, ap);
    va_end(ap);
    note("VIOLATION %s: %s", S->key, S->msg);
    finish(kViolation);
}
void discard(const char* why) { snprintf(S->msg, sizeof S->msg, "%s", why); finish(kDiscard); }
bool noting() { return g_noting; }
void note(const char* fmt, ...) {
    if (!g_noting) return;
    char line[1024];
    va_list ap; va_start(ap, fmt);
    int k = vsnprintf(line, sizeof line - 2, fmt, ap);
    va_end(ap);
    if (k > (int)sizeof line - 2) k = sizeof line - 3;
    int off = 0;
    char pre[64];
    off = snprintf(pre, sizeof pre, "[%llu t%d] ", (unsigned long long)g_steps, self());
    if (S->trace_len + off + k + 2 < sizeof S->trace) {
        memcpy(S->trace + S->trace_len, pre, off); S->trace_len += off;
        memcpy(S->trace + S->trace_len, line, k); S->trace_len += k;
        S->trace[S->trace_len++] = '\n';
    }
}
static void count(const char* kind, int is_fault) {
    for (uint32_t i = 0; i < S->ncounters; i++)
        if (!strcmp(S->counters[i].name, kind)) { S->counters[i].n++; return; }
    if (S->ncounters < kMaxCounters) {
        auto& c = S->counters[S->ncounters++];
        snprintf(c.name, sizeof c.name, "%s", kind); c.n = 1; c.is_fault = is_fault;
    }
}
void fault(const char* kind) { count(kind, 1); note("FAULT %s", kind); }
void probe(const char* kind) { count(kind, 0); }
static void set_fiber_context();
void context(const std::string& c) { snprintf(S->ctx, sizeof S->ctx, "%s", c.c_str()); set_fiber_context(); }
uint64_t steps() { return g_steps; }
void set_step_limit(uint64_t n) { g_step_limit = n; }
void nontrivial() { S->nontrivial = 1; }

// ================================================================= fibres
static const size_t kStack = 256 * 1024;
static const int kMaxFibers = 24;
struct Fiber {
    ucontext_t uc;
    std::function<void()> fn;
    std::string name;
    bool done = false, preempt = true, started = false, mid = false;
    char ctx[256] = "";
    uint64_t hint = 0;                   // expected length
    uint32_t bound = 0;                  // never runs longer than this (busy waiting)
};
static Fiber g_fibers[kMaxFibers];
static int g_nfibers = 0;
static int g_cur = -1;
static ucontext_t g_main;
static uint8_t* g_stacks;
static int64_t g_slice = -1;             // basic blocks left before pre-emption, -1: not counting
static int g_density = 2;
static int g_kills = 0;                   // restarts of killed fibres still allowed
static uint64_t g_stack_seed = 1;
static void set_fiber_context() { if (g_cur >= 0) memcpy(g_fibers[g_cur].ctx, S->ctx, sizeof S->ctx); }
bool in_fiber() { return g_cur >= 0; }
int self() { return g_cur; }
uint64_t switches() { return g_switches; }
void stack_garbage(uint64_t seed) { g_stack_seed = seed; }
void set_preempt_density(int l) { g_density = l; }
void set_kills(int n) { g_kills = n; }
void bound_slice(uint32_t n) { if (g_cur >= 0) g_fibers[g_cur].bound = n; }
void preemption(bool on) { if (g_cur >= 0) g_fibers[g_cur].preempt = on; }
NoPreempt::NoPreempt() { old = g_cur >= 0 ? g_fibers[g_cur].preempt : false; preemption(false); }
NoPreempt::~NoPreempt() { preemption(old); }

static void fiber_main(int idx) {
    g_fibers[idx].fn();
    g_fibers[idx].done = true;
    swapcontext(&g_fibers[idx].uc, &g_main);
    abort();
}
static void prepare(int i) {
    Fiber& f = g_fibers[i];
    uint8_t* st = g_stacks + (size_t)i * (kStack + 8192) + 8192;
    // stale stack contents: the part a kernel call can reach
    Rng r(g_stack_seed * 1315423911u + i);
    uint64_t* q = (uint64_t*)(st + kStack - 32768);
    for (size_t k = 0; k < 32768 / 8; k++) q[k] = r.next();
    getcontext(&f.uc);
    f.uc.uc_stack.ss_sp = st;
    f.uc.uc_stack.ss_size = kStack;
    f.uc.uc_link = nullptr;
    makecontext(&f.uc, (void (*)())fiber_main, 1, i);
    f.started = true;
}
int spawn(std::function<void()> fn, const char* name) {
    if (g_nfibers >= kMaxFibers) { fprintf(stderr, "too many fibres\n"); abort(); }
    int i = g_nfibers++;
    Fiber& f = g_fibers[i];
    f.fn = std::move(fn); f.name = name; f.done = false; f.preempt = true; f.started = false; f.mid = false; f.bound = 0; f.hint = 0; f.ctx[0] = 0;
    prepare(i);
    return i;
}
static void to_main() {
    int me = g_cur;
    g_cur = -1;
    g_slice = -1;
    swapcontext(&g_fibers[me].uc, &g_main);
    g_cur = me;
}
// The running fibre stops for ever (its process died); run_all and run_solo go on without it.
[[noreturn]] void fiber_die() { g_fibers[g_cur].done = true; to_main(); abort(); }
void yield() { if (g_cur >= 0) to_main(); }
void set_length_hint(int f, uint64_t n) { g_fibers[f].hint = n; }
static uint64_t pick_slice(int fiber) {
    // 0: run until the fibre yields by itself; otherwise a number of basic blocks
    switch (g_density) {
    case 0: return 0;
    case 1: if (!chance(1, 4)) return 0; break;
    case 2: if (!chance(1, 2)) return 0; break;
    default: if (!chance(15, 16)) return 0; break;
    }
    static const uint32_t scale[4] = {2000, 300, 40, 6};
    uint64_t hint = g_fibers[fiber].hint;
    if (hint > 1 && flip()) return 1 + ch((uint32_t)std::min<uint64_t>(hint, 1u << 30));
    uint32_t s = scale[ch(4)];
    return 1 + ch(s);
}
static void switch_to(int i, int64_t slice) {
    g_switches++;
    g_slice = slice;
    mix_sched(((uint64_t)i << 32) ^ (uint64_t)slice);
    g_cur = i;
    memcpy(S->ctx, g_fibers[i].ctx, sizeof S->ctx);
    swapcontext(&g_main, &g_fibers[i].uc);
    g_cur = -1;
    g_slice = -1;
}
void run_all() {
    if (g_cur >= 0) abort();
    for (;;) {
        int live[kMaxFibers], n = 0;
        for (int i = 0; i < g_nfibers; i++) if (!g_fibers[i].done) live[n++] = i;
        if (!n) break;
        int i = live[n > 1 ? ch(n) : 0];
        if (g_fibers[i].mid && g_kills > 0 && chance(1, 12)) {
            g_kills--;                       // the worker dies where it was pre-empted and starts again from nothing
            fault("worker_killed_and_restarted");
            if (g_noting) note("worker %d (%s) killed in library code, restarted", i, g_fibers[i].name.c_str());
            g_fibers[i].mid = false; g_fibers[i].preempt = true; g_fibers[i].bound = 0;
            g_stack_seed++;
            prepare(i);
        }
        g_fibers[i].mid = false;
        uint64_t sl = n > 1 || g_kills > 0 ? pick_slice(i) : 0;
        if (!sl && n > 1 && g_fibers[i].bound) sl = g_fibers[i].bound;
        switch_to(i, sl ? (int64_t)sl : -1);
        if (g_switches > 200000) { snprintf(S->key, sizeof S->key, "no-progress"); finish(kHang); }
    }
    g_nfibers = 0;
}
void run_solo(std::function<void()> fn) {
    if (g_cur >= 0) { NoPreempt np; fn(); return; }
    int i = spawn(std::move(fn), "solo");
    g_fibers[i].preempt = false;
    while (!g_fibers[i].done) { g_cur = i; g_slice = -1; swapcontext(&g_main, &g_fibers[i].uc); g_cur = -1; }
    g_nfibers = i;
}

// ================================================================= basic-block hook
static bool g_active = false;
extern "C" void __sanitizer_cov_trace_pc(void) {
    if (!g_active) return;
    g_steps++;
    uint64_t pc = (uint64_t)__builtin_return_address(0);
    uint32_t h = (uint32_t)((pc * 0x9E3779B97F4A7C15ull) >> 48);
    S->cover[h >> 3] |= (uint8_t)(1u << (h & 7));
    if (g_steps > g_step_limit && !g_done) {
        snprintf(S->key, sizeof S->key, "hang");
        snprintf(S->msg, sizeof S->msg, "no completion within %llu basic blocks in %s", (unsigned long long)g_step_limit, S->ctx);
        finish(kHang);
    }
    if (g_slice > 0 && g_cur >= 0 && g_fibers[g_cur].preempt) {
        if (--g_slice == 0) {
            mix_sched(pc);
            if (g_noting) note("pre-empted in library code at pc %llx", (unsigned long long)pc);
            count("preemption_in_library", 1);
            int saved_errno = errno;
            g_fibers[g_cur].mid = true;
            to_main();
            errno = saved_errno;
        }
    }
}

// ================================================================= arena
static const size_t kPage = 4096;
static const size_t kSlotPages = 80;
static const size_t kSlotSpan = (kSlotPages + 2) * kPage;
static const int kSlots = 400;
static uint8_t* const kArenaBase = (uint8_t*)0x100000000000ull;
// Where a run's memory lies: 0 one block of addresses (slots at a fixed distance); 1-3 each slot in a 4 GB region of its own, so
// that addresses of different buffers agree in their low 32 bits; with 2 and 3, buffers lie across the middle or the end
// of those 32 bits. Pages are mapped when they are needed.
static int g_layout = -1;
static const uint64_t kFarBase = 0x200000000000ull;
static const int kFarSlots = kSlots + 1;
static std::vector<Buf> g_bufs;
std::vector<Buf>& bufs() { return g_bufs; }
static void map_arena() {
    void* a = mmap(kArenaBase, kSlotSpan * kSlots, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
    if (a != kArenaBase) { perror("arena"); exit(3); }
    for (int i = 0; i < kSlots; i++)
        mprotect(kArenaBase + i * kSlotSpan + kPage, kSlotPages * kPage, PROT_READ | PROT_WRITE);
}
void fill(const Buf& b, uint64_t seed) {
    Rng r(seed ^ ((uint64_t)b.slot << 40));
    uint64_t* q = (uint64_t*)b.base;
    for (size_t k = 0; k < b.span / 8; k++) q[k] = r.next();
}
void fill_redzone(const Buf& b, uint64_t seed) {
    Rng r(seed ^ ((uint64_t)b.slot << 40) ^ 0x5555);
    for (uint8_t* q = b.base; q < b.base + b.span; q++) {
        if (q == b.p && b.n) q += b.n;
        if (q >= b.base + b.span) break;
        *q = (uint8_t)r.next();
    }
}
static bool g_fixed = false;
void rewind_arena(bool fixed) { g_bufs.clear(); g_fixed = fixed; if (fixed) g_layout = 0; }
Buf alloc(size_t bytes, const char* name, int place, size_t align) {
    if (g_fixed) place = kStart;
    if (g_layout < 0) {
        g_layout = ch(8) == 7 ? 1 + (int)ch(3) : 0;
        if (g_layout) probe("buffers in different 4 GB regions");
        if (g_layout > 1) probe("buffers across a 2 GB boundary");
    }
    if (place < 0) place = (int)ch(3);
    if ((int)g_bufs.size() >= kSlots) discard("arena: out of slots");
    Buf b;
    b.slot = (int)g_bufs.size();
    b.name = name;
    b.n = bytes;
    uint8_t* lo = kArenaBase + (size_t)b.slot * kSlotSpan + kPage;
    uint8_t* hi = lo + kSlotPages * kPage;
    size_t pages = (bytes + 256 + kPage - 1) / kPage;
    if (pages > kSlotPages) discard("arena: buffer too big");
    b.span = pages * kPage;
    if (g_layout > 0) {
        uint8_t* region = (uint8_t*)(kFarBase + ((uint64_t)b.slot << 33));
        uint64_t border = g_layout == 2 ? 0x80000000ull : 0x100000000ull;
        bool across = g_layout > 1 && place != kEnd;
        lo = region + kPage; hi = lo + kSlotPages * kPage;
        if (across) { b.span += kPage; lo = region + border - (bytes / 2 + kPage - 1) / kPage * kPage - (bytes < 2 ? kPage : 0); }
        uint8_t* base = place == kEnd ? hi - b.span : lo;
        if (mmap(base, b.span, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0) != base) discard("arena: far slot taken");
        if (across) { b.base = lo; b.p = (uint8_t*)(((uint64_t)region + border - bytes / 2) / align * align); }
    }
    if (b.base) ;
    else if (place == kEnd) { b.base = hi - b.span; b.p = (uint8_t*)(((uint64_t)hi - bytes) / align * align); }
    else if (place == kStart) { b.base = lo; b.p = lo; }
    else { b.base = lo; b.p = (uint8_t*)(((uint64_t)lo + 128 + align - 1) / align * align); }
    if (b.p + bytes > b.base + b.span) discard("arena: bad placement");
    fill(b, 0xABCD1234u + b.slot);
    g_bufs.push_back(b);
    return b;
}
Image snapshot() {
    Image im;
    for (auto& b : g_bufs) im.bytes.emplace_back(b.base, b.base + b.span);
    return im;
}
void restore(const Image& im) {
    for (size_t i = 0; i < im.bytes.size(); i++) memcpy(g_bufs[i].base, im.bytes[i].data(), g_bufs[i].span);
}
Mask::Mask() { for (auto& b : g_bufs) m.emplace_back(b.span, 0); }
static int find_buf(const void* p) {
    const uint8_t* q = (const uint8_t*)p;
    if (g_layout > 0) {                        // a buffer of layout 3 reaches into the next region
        if ((uint64_t)q < kFarBase || (uint64_t)q >= kFarBase + ((uint64_t)kFarSlots << 33)) return -1;
        for (int d = 0; d < 2; d++) {
            int s = (int)(((uint64_t)q - kFarBase) >> 33) - d;
            if (s >= 0 && s < (int)g_bufs.size() && q >= g_bufs[s].base && q < g_bufs[s].base + g_bufs[s].span) return s;
        }
        return -1;
    }
    if (q < kArenaBase || q >= kArenaBase + kSlotSpan * kSlots) return -1;
    int s = (int)((size_t)(q - kArenaBase) / kSlotSpan);
    return s < (int)g_bufs.size() ? s : -1;
}
void Mask::allow(const void* p, size_t n) {
    int s = find_buf(p);
    if (s < 0 || s >= (int)m.size()) return;
    const uint8_t* q = (const uint8_t*)p;
    for (size_t i = 0; i < n; i++) {
        if (q + i < g_bufs[s].base || q + i >= g_bufs[s].base + g_bufs[s].span) continue;
        m[s][q + i - g_bufs[s].base] = 1;
    }
}
bool Mask::allowed(const void* p) const {
    int s = find_buf(p);
    if (s < 0 || s >= (int)m.size()) return false;
    const uint8_t* q = (const uint8_t*)p;
    if (q < g_bufs[s].base || q >= g_bufs[s].base + g_bufs[s].span) return false;
    return m[s][q - g_bufs[s].base];
}
static uint8_t* image_at(const Image& im, const void* p, size_t n) {
    int s = find_buf(p);
    if (s < 0 || s >= (int)im.bytes.size()) return nullptr;
    size_t o = (size_t)((const uint8_t*)p - g_bufs[s].base);
    if ((const uint8_t*)p < g_bufs[s].base || o + n > g_bufs[s].span) return nullptr;
    return (uint8_t*)im.bytes[s].data() + o;
}
void poke(Image& im, const void* p, const void* bytes, size_t n) {
    uint8_t* q = image_at(im, p, n);
    if (!q) { fprintf(stderr, "poke outside the arena\n"); abort(); }
    memcpy(q, bytes, n);
}
void peek(const Image& im, const void* p, void* out, size_t n) {
    uint8_t* q = image_at(im, p, n);
    if (!q) { fprintf(stderr, "peek outside the arena\n"); abort(); }
    memcpy(out, q, n);
}
static std::string diff_(const Image& im, const Mask* mask) {
    for (size_t i = 0; i < im.bytes.size(); i++) {
        const Buf& b = g_bufs[i];
        if (!memcmp(im.bytes[i].data(), b.base, b.span)) continue;
        for (size_t k = 0; k < b.span; k++)
            if (im.bytes[i][k] != b.base[k] && !(mask && i < mask->m.size() && mask->m[i][k])) {
                char t[256];
                snprintf(t, sizeof t, "byte %lld of %s (%zu usable bytes) changed from 0x%02x to 0x%02x",
                         (long long)(b.base + k - b.p), b.name.c_str(), b.n, im.bytes[i][k], b.base[k]);
                return t;
            }
    }
    return "";
}
std::string diff(const Image& im, const Mask& mask) { return diff_(im, &mask); }
std::string diff(const Image& im) { return diff_(im, nullptr); }

// ================================================================= static state of the library
extern "C" char sim_data_begin[], sim_data_end[], sim_bss_begin[], sim_bss_end[];
static std::vector<char> g_data0, g_bss0;      // taken before the first library call
static void remember() {
    if (sim_data_end < sim_data_begin || sim_bss_end < sim_bss_begin) { fprintf(stderr, "the library's static state is not between the markers\n"); exit(3); }
    g_data0.assign(sim_data_begin, sim_data_end); g_bss0.assign(sim_bss_begin, sim_bss_end);
}
void forget() { memcpy(sim_data_begin, g_data0.data(), g_data0.size()); memcpy(sim_bss_begin, g_bss0.data(), g_bss0.size()); }

// ================================================================= scenarios and main loop
static std::vector<Scenario>& scenarios() { static std::vector<Scenario> v; return v; }
void add_scenario(const char* p, const char* n, ScenarioFn f) { scenarios().push_back({p, n, f}); }

static void on_signal(int sig, siginfo_t* si, void*) {
    const char* nm = sig == SIGSEGV ? "segv" : sig == SIGABRT ? "abort" : sig == SIGFPE ? "fpe" : sig == SIGBUS ? "bus" : sig == SIGILL ? "ill" : "signal";
    if (sig == SIGALRM) { snprintf(S->key, sizeof S->key, "hang"); snprintf(S->msg, sizeof S->msg, "no completion in 60 s of real time in %s", S->ctx); finish(kHang); }
    // strip run-dependent parts: the context names the call
    snprintf(S->key, sizeof S->key, "crash-%s:%.200s", nm, S->ctx);
    const Buf* nb = nullptr;
    uint8_t* a = (uint8_t*)si->si_addr;
    long long off = 0;
    if (sig == SIGSEGV) for (auto& b : g_bufs) {
        uint8_t* lo = g_layout > 0 ? b.base - 4 * kPage : kArenaBase + (size_t)b.slot * kSlotSpan;
        if (a >= lo && a < (g_layout > 0 ? b.base + b.span + 4 * kPage : lo + kSlotSpan)) { nb = &b; off = a - b.p; }
    }
    if (nb) snprintf(S->msg, sizeof S->msg, "signal %s in %s: access at byte %lld of %s (%zu bytes)", nm, S->ctx, off, nb->name.c_str(), nb->n);
    else if (sig == SIGSEGV) snprintf(S->msg, sizeof S->msg, "signal %s in %s, address %p", nm, S->ctx, (void*)a);
    else snprintf(S->msg, sizeof S->msg, "signal %s in %s", nm, S->ctx);
    note("CRASH %s", S->msg);
    finish(kViolation);
}

struct RunResult { int outcome; std::string key, msg; std::vector<uint32_t> choices, bounds; uint64_t hash, sched, steps, switches; int nontrivial; };

static RunResult run_once(const Scenario& sc, uint64_t seed, const std::vector<uint32_t>* replay, bool noting_) {
    S->outcome = kRunning; S->key[0] = S->msg[0] = S->ctx[0] = 0;
    S->nchoices = S->overflow = 0; S->hash = 1469598103934665603ull; S->sched_hash = 88172645463325252ull;
    S->steps = S->switches = 0; S->nontrivial = 0; S->trace_len = 0;
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(3); }
    if (pid == 0) {
        g_noting = noting_;
        g_rng = seed; g_replay = replay;
        int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); if (!getenv("SIM_STDERR")) dup2(dn, 2);
        struct rlimit rl = {2ull << 30, 2ull << 30}; setrlimit(RLIMIT_DATA, &rl);
        rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
        static uint8_t alt[65536];
        stack_t ss = {}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
        struct sigaction sa = {}; sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
        for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM}) sigaction(s, &sa, nullptr);
        alarm(60);
        g_step_limit = 150ull * 1000 * 1000;
        g_active = true;
        sc.fn();
        g_active = false;
        finish(kOk);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    RunResult r;
    r.outcome = S->outcome; r.key = S->key; r.msg = S->msg;
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0) || r.outcome == kRunning || r.outcome == 99) {
        if (r.outcome != kViolation && (WIFEXITED(st) || WTERMSIG(st) != SIGKILL)) {
            r.outcome = kViolation;            // the code under test ended the process
            char t[300]; snprintf(t, sizeof t, "ended-process-%x:%.200s", st, S->ctx); r.key = t; r.msg = "the process was ended inside the code under test";
        } else if (r.outcome != kViolation) {
            r.outcome = 99;
            char t[400]; snprintf(t, sizeof t, "child status %x in %s", st, S->ctx); r.msg = t; r.key = "simulator-error";
        }
    }
    r.choices.assign(S->choices, S->choices + S->nchoices);
    r.bounds.assign(S->bounds, S->bounds + S->nchoices);
    mix(r.outcome); for (char c : r.key) mix((uint8_t)c);
    r.hash = S->hash; r.sched = S->sched_hash; r.steps = S->steps; r.switches = S->switches; r.nontrivial = S->nontrivial;
    if (r.outcome == kHang) { r.outcome = kViolation; std::string c = S->ctx; r.key = "hang:" + c; }
    return r;
}

static std::string jstr(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c < 32 || c > 126) { char t[8]; snprintf(t, sizeof t, "\\u%04x", c); o += t; }
        else o += (char)c;
    }
    return o + "\"";
}
static uint64_t hash3(uint64_t a, uint64_t b, uint64_t c) { Rng r(a * 1000003 + b * 10007 + c); r.next(); return r.next() ^ (b << 1); }
static uint64_t strhash(const char* s) { uint64_t h = 5381; while (*s) h = h * 33 + (uint8_t)*s++; return h; }
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static void write_choices(FILE* f, const std::vector<uint32_t>& c) {
    fprintf(f, "[");
    for (size_t i = 0; i < c.size(); i++) fprintf(f, "%s%u", i ? "," : "", c[i]);
    fprintf(f, "]");
}

// ---- minimisation: shrink the choice stream while the same key reproduces
static std::vector<uint32_t> shrink(const Scenario& sc, std::vector<uint32_t> best, const std::string& key, double deadline, int& tries) {
    auto bad = [&](const std::vector<uint32_t>& c) {
        tries++;
        RunResult r = run_once(sc, 0, &c, false);
        return r.outcome == kViolation && r.key == key;
    };
    auto trim = [](std::vector<uint32_t>& c) { while (!c.empty() && c.back() == 0) c.pop_back(); };
    trim(best);
    bool progress = true;
    while (progress && now() < deadline) {
        progress = false;
        for (size_t len = std::max<size_t>(1, best.size() / 2); len >= 1 && now() < deadline; len /= 2) {
            for (size_t i = 0; i + len <= best.size() && now() < deadline;) {   // delete spans
                std::vector<uint32_t> c = best; c.erase(c.begin() + i, c.begin() + i + len); trim(c);
                if (c.size() < best.size() && bad(c)) { best = c; progress = true; } else i += len;
            }
            for (size_t i = 0; i + len <= best.size() && now() < deadline; i += len) {   // zero spans
                bool any = false; for (size_t k = i; k < i + len; k++) any |= best[k] != 0;
                if (!any) continue;
                std::vector<uint32_t> c = best; for (size_t k = i; k < i + len; k++) c[k] = 0; trim(c);
                if (bad(c)) { best = c; progress = true; }
            }
            if (len == 1) break;
        }
        for (size_t i = 0; i < best.size() && now() < deadline; i++) {           // lower single values
            uint32_t lo = 0, hi = best[i];
            while (lo < hi && now() < deadline) {
                uint32_t mid = lo + (hi - lo) / 2;
                std::vector<uint32_t> c = best; c[i] = mid;
                if (bad(c)) { hi = mid; best = c; progress = true; } else lo = mid + 1;
            }
        }
        trim(best);
    }
    return best;
}

static bool read_replay(const char* path, std::string& prop, std::string& scen, std::string& key, std::vector<uint32_t>& c, uint64_t& hash) {
    FILE* f = fopen(path, "r"); if (!f) return false;
    char line[4096]; c.clear(); hash = 0;
    while (fgets(line, sizeof line, f)) {
        char a[2048]; unsigned v; unsigned long long h;
        if (line[0] == '#') continue;
        if (sscanf(line, "property %2000s", a) == 1) prop = a;
        else if (sscanf(line, "scenario %2000s", a) == 1) scen = a;
        else if (sscanf(line, "hash %llx", &h) == 1) hash = h;
        else if (!strncmp(line, "key ", 4)) { key = line + 4; while (!key.empty() && key.back() == '\n') key.pop_back(); }
        else if (sscanf(line, "c %u", &v) == 1) c.push_back(v);
    }
    fclose(f);
    return true;
}
static void write_replay(const char* path, const Scenario& sc, const RunResult& r, uint64_t seed, const char* extra) {
    FILE* f = fopen(path, "w"); if (!f) { perror(path); exit(3); }
    fprintf(f, "# replay file of the embARC MLI simulator: one choice per 'c' line (value, bound); '#' lines are the trace\n");
    fprintf(f, "property %s\nscenario %s\nconfig %s\nseed %llu\nkey %s\nhash %llx\n", sc.prop, sc.name, config_name(), (unsigned long long)seed, r.key.c_str(), (unsigned long long)r.hash);
    fprintf(f, "# %s\n# violation: %s\n", extra, r.msg.c_str());
    for (size_t i = 0; i < r.choices.size(); i++) fprintf(f, "c %u %u\n", r.choices[i], i < r.bounds.size() ? r.bounds[i] : 0);
    fprintf(f, "# ---- trace\n");
    const char* t = S->trace; const char* e = S->trace + S->trace_len;
    while (t < e) { const char* n = (const char*)memchr(t, '\n', e - t); if (!n) n = e; fprintf(f, "# %.*s\n", (int)(n - t), t); t = n + 1; }
    fclose(f);
}
static const Scenario* find(const std::string& prop, const std::string& name) {
    for (auto& s : scenarios()) if (prop == s.prop && name == s.name) return &s;
    return nullptr;
}
}  // namespace sim

using namespace sim;
int main(int argc, char** argv) {
    // same addresses and stack-protector value in every run
    if (!getenv("SIM_NOASLR")) {
        setenv("SIM_NOASLR", "1", 1);
        int pers = personality(0xffffffff);
        if (pers != -1 && personality(pers | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    asm volatile("movq %0, %%fs:0x28" ::"r"(0x5ca1ab1e0ff1ce00ull));
    setvbuf(stdout, nullptr, _IOLBF, 0);
    S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    map_arena();
    remember();
    g_stacks = (uint8_t*)mmap((void*)0x180000000000ull, kMaxFibers * (kStack + 8192), PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
    if (g_stacks == MAP_FAILED) { perror("stacks"); return 3; }
    for (int i = 0; i < kMaxFibers; i++) mprotect(g_stacks + (size_t)i * (kStack + 8192) + 8192, kStack, PROT_READ | PROT_WRITE);
    std::string cmd = argc > 1 ? argv[1] : "";
    auto arg = [&](const char* n, const char* d) -> std::string { for (int i = 2; i + 1 < argc; i++) if (!strcmp(argv[i], n)) return argv[i + 1]; return d; };
    if (cmd == "list") { for (auto& s : scenarios()) printf("%s %s\n", s.prop, s.name); return 0; }
    if (cmd == "run") {
        // run --prop P --seed N --first I --stride K --count N --secs T --dir D --known FILE
        std::string prop = arg("--prop", ""), only = arg("--scenario", ""), dir = arg("--dir", ".");
        uint64_t seed = strtoull(arg("--seed", "1").c_str(), 0, 10), first = strtoull(arg("--first", "0").c_str(), 0, 10),
                 stride = strtoull(arg("--stride", "1").c_str(), 0, 10), count_ = strtoull(arg("--count", "1000").c_str(), 0, 10);
        double secs = atof(arg("--secs", "60").c_str());
        int max_viol = atoi(arg("--max-viol", "8").c_str());
        std::set<std::string> known;
        if (FILE* f = fopen(arg("--known", "").c_str(), "r")) { char l[512]; while (fgets(l, sizeof l, f)) { std::string k = l; while (!k.empty() && k.back() == '\n') k.pop_back(); if (!k.empty()) known.insert(k); } fclose(f); }
        std::vector<const Scenario*> mine;
        for (auto& s : scenarios()) if (prop == s.prop && (only.empty() || only == s.name)) mine.push_back(&s);
        if (mine.empty()) { fprintf(stderr, "no scenario for %s\n", prop.c_str()); return 3; }
        double t0 = now();
        uint64_t runs = 0, disc = 0, nontriv = 0, steps_ = 0, sw = 0, overflow = 0, detchecks = 0, maxsteps = 0;
        std::set<uint64_t> hashes, scheds;
        std::map<std::string, uint64_t> knownhits; std::map<std::string, int> seenkeys; std::map<std::string, uint64_t> perscn;
        std::vector<std::string> viols; std::string errors; int nerr = 0;
        std::vector<std::string> samples;
        for (uint64_t i = 0; i < count_ && now() - t0 < secs; i++) {
            uint64_t idx = first + i * stride;
            const Scenario& sc = *mine[idx % mine.size()];
            uint64_t rs = hash3(seed, idx, strhash(sc.name) ^ strhash(prop.c_str()));
            bool take_sample = samples.size() < 2 && i % 7 == 3;
            RunResult r = run_once(sc, rs, nullptr, take_sample);
            runs++; perscn[sc.name]++;
            steps_ += r.steps; sw += r.switches; overflow += S->overflow; if (r.steps > maxsteps) maxsteps = r.steps;
            if (r.outcome == kDiscard) { disc++; continue; }
            if (take_sample && r.outcome == kOk && r.nontrivial) {
                char h[200]; snprintf(h, sizeof h, "seed index %llu (%s, %s): ", (unsigned long long)idx, sc.name, config_name());
                samples.push_back(std::string(h) + std::string(S->trace, std::min<size_t>(S->trace_len, 1500)));
            }
            if (r.nontrivial && r.outcome == kOk) { nontriv++; if (hashes.size() < 3000000) hashes.insert(r.hash ^ r.sched * 3); if (scheds.size() < 3000000) scheds.insert(r.sched); }
            if (i % 50 == 17) {        // same seed twice: the run must be exactly repeatable
                RunResult r2 = run_once(sc, rs, nullptr, take_sample);
                detchecks++;
                if (r2.hash != r.hash || r2.sched != r.sched || r2.outcome != r.outcome || r2.choices != r.choices) {
                    nerr++; char t[256]; snprintf(t, sizeof t, "run %llu of %s is not repeatable (%llx/%llx vs %llx/%llx)", (unsigned long long)idx, sc.name, (unsigned long long)r.hash,(unsigned long long)r.sched,(unsigned long long)r2.hash,(unsigned long long)r2.sched);
                    errors += t; errors += "; ";
                    if (nerr > 5) break;
                }
            }
            if (r.outcome == 99) { nerr++; errors += r.msg + "; "; if (nerr > 5) break; continue; }
            if (r.outcome == kViolation) {
                std::string full = std::string(sc.name) + ":" + r.key;
                if (known.count(full)) { knownhits[full]++; continue; }
                if (seenkeys[full]++ == 0) {
                    char path[600]; snprintf(path, sizeof path, "%s/raw-%s-%s-%llu.replay", dir.c_str(), prop.c_str(), config_name(), (unsigned long long)idx);
                    RunResult rr = run_once(sc, rs, nullptr, true);
                    if (rr.outcome != kViolation || rr.key != r.key) { nerr++; errors += "violation not repeatable: " + full + "; "; continue; }
                    char ex[128]; snprintf(ex, sizeof ex, "seed index %llu, not minimised", (unsigned long long)idx);
                    write_replay(path, sc, rr, rs, ex);
                    viols.push_back("{\"key\":" + jstr(full) + ",\"msg\":" + jstr(r.msg) + ",\"replay\":" + jstr(path) + "}");
                    if ((int)viols.size() >= max_viol) break;
                }
            }
        }
        int cov = 0; for (unsigned char c : S->cover) cov += __builtin_popcount(c);
        printf("{\"config\":%s,\"runs\":%llu,\"discarded\":%llu,\"nontrivial\":%llu,\"distinct\":%zu,\"distinct_schedules\":%zu,\"steps\":%llu,\"max_steps\":%llu,\"switches\":%llu,\"overflow\":%llu,\"repeat_checks\":%llu,\"secs\":%.2f,\"cover_bits\":%d,",
               jstr(config_name()).c_str(), (unsigned long long)runs, (unsigned long long)disc, (unsigned long long)nontriv, hashes.size(), scheds.size(), (unsigned long long)steps_, (unsigned long long)maxsteps, (unsigned long long)sw, (unsigned long long)overflow, (unsigned long long)detchecks, now() - t0, cov);
        printf("\"faults\":{"); bool c1 = false;
        for (uint32_t i = 0; i < S->ncounters; i++) if (S->counters[i].is_fault) { printf("%s%s:%llu", c1 ? "," : "", jstr(S->counters[i].name).c_str(), (unsigned long long)S->counters[i].n); c1 = true; }
        printf("},\"reached\":{"); c1 = false;
        for (uint32_t i = 0; i < S->ncounters; i++) if (!S->counters[i].is_fault) { printf("%s%s:%llu", c1 ? "," : "", jstr(S->counters[i].name).c_str(), (unsigned long long)S->counters[i].n); c1 = true; }
        printf("},\"scenarios\":{"); c1 = false;
        for (auto& k : perscn) { printf("%s%s:%llu", c1 ? "," : "", jstr(k.first).c_str(), (unsigned long long)k.second); c1 = true; }
        printf("},\"known\":{"); c1 = false;
        for (auto& k : knownhits) { printf("%s%s:%llu", c1 ? "," : "", jstr(k.first).c_str(), (unsigned long long)k.second); c1 = true; }
        printf("},\"samples\":["); for (size_t i = 0; i < samples.size(); i++) printf("%s%s", i ? "," : "", jstr(samples[i]).c_str());
        if (FILE* f = fopen(arg("--hashes", "/dev/null").c_str(), "wb")) { for (uint64_t h : hashes) fwrite(&h, 8, 1, f); fclose(f); }
        if (FILE* f = fopen(arg("--schedules", "/dev/null").c_str(), "wb")) { for (uint64_t h : scheds) fwrite(&h, 8, 1, f); fclose(f); }
        printf("],\"violations\":["); for (size_t i = 0; i < viols.size(); i++) printf("%s%s", i ? "," : "", viols[i].c_str());
        printf("],\"errors\":%s}\n", jstr(errors).c_str());
        return 0;
    }
    if (cmd == "shrink" && argc >= 4) {   // shrink IN OUT [--secs T]
        std::string prop, scen, key; std::vector<uint32_t> c; uint64_t h;
        if (!read_replay(argv[2], prop, scen, key, c, h)) return 3;
        const Scenario* sc = find(prop, scen); if (!sc) return 3;
        int tries = 0;
        std::vector<uint32_t> b = shrink(*sc, c, key, now() + atof(arg("--secs", "30").c_str()), tries);
        RunResult r = run_once(*sc, 0, &b, true);
        if (r.outcome != kViolation || r.key != key) { fprintf(stderr, "shrunk stream does not reproduce\n"); return 3; }
        char ex[200]; snprintf(ex, sizeof ex, "minimised from %zu to %zu choices in %d trial runs", c.size(), r.choices.size(), tries);
        write_replay(argv[3], *sc, r, 0, ex);
        return 0;
    }
    if (cmd == "replay" && argc >= 3) {   // exit 1 if the violation of the file is reproduced exactly
        std::string prop, scen, key; std::vector<uint32_t> c; uint64_t h;
        if (!read_replay(argv[2], prop, scen, key, c, h)) return 3;
        const Scenario* sc = find(prop, scen); if (!sc) { fprintf(stderr, "unknown scenario\n"); return 3; }
        RunResult r = run_once(*sc, 0, &c, true);
        if (arg("--trace", "0") == "1") fwrite(S->trace, 1, S->trace_len, stdout);
        printf("outcome %d key %s hash %llx\n%s\n", r.outcome, r.key.c_str(), (unsigned long long)r.hash, r.msg.c_str());
        if (r.outcome == kViolation && r.key == key && (h == 0 || h == r.hash)) return 1;
        return r.outcome == kOk ? 0 : 2;
    }
    if (cmd == "one") {                   // one --prop P --scenario S --seed N --index I : run with trace
        std::string prop = arg("--prop", ""), only = arg("--scenario", "");
        uint64_t seed = strtoull(arg("--seed", "1").c_str(), 0, 10), idx = strtoull(arg("--index", "0").c_str(), 0, 10);
        std::vector<const Scenario*> mine;
        for (auto& s : scenarios()) if (prop == s.prop && (only.empty() || only == s.name)) mine.push_back(&s);
        const Scenario& sc = *mine[idx % mine.size()];
        RunResult r = run_once(sc, hash3(seed, idx, strhash(sc.name) ^ strhash(prop.c_str())), nullptr, true);
        fwrite(S->trace, 1, S->trace_len, stdout);
        printf("%s outcome %d key %s\n%s\nsteps %llu switches %llu choices %zu\n", sc.name, r.outcome, r.key.c_str(), r.msg.c_str(), (unsigned long long)r.steps, (unsigned long long)r.switches, r.choices.size());
        return 0;
    }
    fprintf(stderr, "usage: sim list | run | shrink | replay | one\n");
    return 3;
}
