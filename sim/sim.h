// Deterministic simulator core: choices, fibres with basic-block pre-emption, guarded arena, outcomes.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <functional>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- choices
// Every decision of a run (workload, schedule, fault) is one choice; 0 is the tamest value.
uint32_t ch(uint32_t n);                       // uniform in [0,n)
inline bool flip() { return ch(2) != 0; }
bool chance(uint32_t num, uint32_t den);       // true with probability num/den (recorded as 0/1)
inline int range(int lo, int hi) { return lo + (int)ch((uint32_t)(hi - lo + 1)); }
template <class T> const T& pick(const std::vector<T>& v) { return v[ch((uint32_t)v.size())]; }
uint64_t data_seed();                          // one choice that seeds bulk data

struct Rng {                                   // bulk data only, seeded by data_seed()
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) {}
    uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
                      z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    int range(int lo, int hi) { return lo + (int)(next() % (uint64_t)((int64_t)hi - lo + 1)); }
};

// ---------------------------------------------------------------- outcome / evidence
// Ends the run. key identifies the kind of failure (stable across minimisation), msg the details.
[[noreturn]] void violation(const std::string& key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void discard(const char* why);    // generated case is outside the property's domain
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));   // human-readable schedule/fault trace
bool noting();
void fault(const char* kind);                  // count one injected fault
void probe(const char* kind);                  // count one "reached" event
void mix(uint64_t v);                          // feed the history hash
void context(const std::string& c);            // what is running (names crashes and hangs)
uint64_t steps();                              // basic blocks executed so far: simulated time
void set_step_limit(uint64_t n);               // more steps than this in one run is a hang
void nontrivial();                             // this run exercised what the property is about

// ---------------------------------------------------------------- fibres
int spawn(std::function<void()> fn, const char* name);
void run_all();                                // seeded scheduling until every fibre has finished
void yield();                                  // scheduling point between calls
bool in_fiber();
int self();                                    // index of running fibre, -1 outside
void preemption(bool on);                      // allow basic-block pre-emption in the running fibre
struct NoPreempt { bool old; NoPreempt(); ~NoPreempt(); };
void set_kills(int n);                         // how often run_all may kill a pre-empted fibre and restart it from its beginning
void set_preempt_density(int level);           // 0 none .. 3 dense
void set_length_hint(int fiber, uint64_t n);    // about how many basic blocks the fibre runs: pre-emption points are spread over them
void run_solo(std::function<void()> fn);       // on a fresh fibre, never pre-empted
uint64_t switches();
void bound_slice(uint32_t n);                   // running fibre busy-waits: pre-empt it after at most n blocks (0: off)
void stack_garbage(uint64_t seed);             // what fresh fibre stacks contain
void forget();                                 // the process is restarted: the library's static state is as at program start

// ---------------------------------------------------------------- arena
struct Buf {
    uint8_t* p = nullptr; size_t n = 0;        // usable bytes
    uint8_t* base = nullptr; size_t span = 0;  // mapped pages of the slot that are in use
    int slot = -1;
    std::string name;
    template <class T> T* as() const { return (T*)p; }
};
enum Place { kEnd = 0, kStart = 1, kMid = 2 }; // flush to upper guard, to lower guard, or redzones inside
Buf alloc(size_t bytes, const char* name, int place = -1, size_t align = 8);
void fill(const Buf& b, uint64_t seed);        // garbage over the whole span
void fill_redzone(const Buf& b, uint64_t seed);// garbage around the usable bytes only
struct Image {                                 // expected contents of every slot
    std::vector<std::vector<uint8_t>> bytes;
};
std::vector<Buf>& bufs();
void rewind_arena(bool fixed);                 // all buffers are given back; fixed: from now on the n-th buffer always starts at the same address
Image snapshot();
void restore(const Image& im);
void poke(Image& im, const void* p, const void* bytes, size_t n);   // expected write
void peek(const Image& im, const void* p, void* out, size_t n);      // expected contents
struct Mask {                                  // bytes that are allowed to change
    std::vector<std::vector<uint8_t>> m;
    Mask();
    void allow(const void* p, size_t n);
    bool allowed(const void* p) const;
};
// Compares memory with the image outside the mask; returns "" or a description of the first difference.
std::string diff(const Image& im, const Mask& mask);
std::string diff(const Image& im);

// ---------------------------------------------------------------- scenarios
typedef void (*ScenarioFn)();
struct Scenario { const char* prop; const char* name; ScenarioFn fn; };
void add_scenario(const char* prop, const char* name, ScenarioFn fn);
struct Reg { Reg(const char* p, const char* n, ScenarioFn f) { add_scenario(p, n, f); } };
const char* config_name();                     // which library build this binary is linked with
// One axis of a few runs is longer than eight bits can count.
inline uint32_t longer(uint32_t v, bool or_huge = false) {
    static int left = -1;
    if (left < 0) left = ch(10) == 9;
    if (left <= 0 || ch(3) != 2) return v;
    left = 0;
    if (or_huge && ch(4) == 3) { probe("an axis longer than 65535"); return (uint32_t)range(65530, 66000); }
    probe("an axis longer than 255");
    return (uint32_t)range(128, 300);
}

}
#define SIM_SCENARIO(PROP, NAME) \
    static void scn_##PROP##_##NAME(); \
    static ::sim::Reg reg_##PROP##_##NAME(#PROP, #NAME, &scn_##PROP##_##NAME); \
    static void scn_##PROP##_##NAME()
