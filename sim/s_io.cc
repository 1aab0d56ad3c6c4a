// File handling of the examples: C12 IDX files, C13 batch runner, C15 tensor loading and comparison, C16 BMP.
// Real code under test, real stdio above a simulated kernel: every open, read, write, seek, close and allocation
// is a decision of the seeded simulator.
#define SIM_IO_IMPLEMENTATION
#include "io_redirect.h"
#include "tensors.h"
#include <cerrno>
#include <cmath>
#include <cstdarg>
#include <map>
#include <set>
#include <sys/mman.h>
extern "C" {
#include "idx_file.h"
#include "tests_aux.h"
#include "examples_aux.h"
#include "bmp_file_io.h"
}

namespace sim {
[[noreturn]] void fiber_die();

// ================================================================= simulated kernel
typedef std::vector<uint8_t> Bytes;
static std::map<std::string, Bytes> g_disk;
struct Plan { int mode = 0; uint64_t at = 0; int den = 8; uint64_t room = ~0ull; bool shorts = false; int64_t crash_at = -1; };
static Plan g_plan;
static bool g_armed = false;
static uint64_t g_ops = 0, g_injected = 0, g_grown = 0;
struct Open { std::string path; size_t pos = 0; bool rd, wr; FILE* f = nullptr; char* vbuf = nullptr; };
static std::set<Open*> g_open;
static std::string g_printed;
// Circumstances of listed findings. A violation that one of them explains carries it in its key ("key@circumstance"),
// so that KNOWN_FINDINGS.txt can tolerate exactly that history; nothing else about the run changes.
static bool g_seek_failed = false, g_close_failed = false, g_in_close = false, g_in_seek = false, g_header_last = false, g_placeholder_failed = false, g_alloc_failed = false, g_read_failed = false, g_opened_any = false;
static std::string io_circumstance() {
    if (g_close_failed) return "@failed-close";
    if (g_placeholder_failed) return "@failed-placeholder-header";
    if (g_seek_failed) return "@failed-seek";
    return "";
}

static std::string rd_circumstance() { return g_seek_failed ? "@failed-seek" : ""; }   // a failing close harms no reader

static Open* find_open(FILE* f) { for (Open* o : g_open) if (o->f == f) return o; return nullptr; }
static bool fails(const char* what) {
    if (!g_armed) return false;
    uint64_t k = g_ops++;
    bool bad = false;
    switch (g_plan.mode) {
    case 1: bad = k == g_plan.at; break;
    case 2: bad = chance(1, (uint32_t)g_plan.den); break;
    case 3: bad = k >= g_plan.at; break;
    default: break;
    }
    if (bad) { g_injected++; fault(what); }
    return bad;
}
static void maybe_crash(const char* what) {
    if (!g_armed || g_plan.crash_at < 0) return;
    if (g_plan.crash_at-- == 0) { fault(what); g_armed = false; fiber_die(); }
}
static ssize_t k_read(void* c, char* b, size_t n) {
    Open* o = (Open*)c;
    if (fails("read_error")) { g_read_failed = true; errno = EIO; return -1; }
    const Bytes& d = g_disk[o->path];
    size_t left = o->pos < d.size() ? d.size() - o->pos : 0;
    size_t k = std::min(n, left);
    if (g_armed && g_plan.shorts && k > 1) { size_t s = 1 + ch((uint32_t)k); if (s < k) { fault("short_read"); k = s; } }
    if (k) memcpy(b, d.data() + o->pos, k);
    o->pos += k;
    return (ssize_t)k;
}
static ssize_t k_write(void* c, const char* b, size_t n) {
    Open* o = (Open*)c;
    Bytes& d = g_disk[o->path];
    size_t k = n;
    bool bad = fails("write_error");
    if (bad) k = ch((uint32_t)n + 1) % (n ? n : 1);                  // a torn write: some prefix arrives
    bool crash = g_armed && g_plan.crash_at == 0;
    if (crash) k = ch((uint32_t)n + 1);
    size_t end = o->pos + k;
    if (g_armed && end > d.size() && end - d.size() > g_plan.room - g_grown) {
        k = o->pos + k - (end - d.size() - (g_plan.room - g_grown)) - o->pos;
        if (!bad) { g_injected++; fault("disk_full"); }
        bad = true; end = o->pos + k;
    }
    if (end > d.size()) { if (g_armed) g_grown += end - d.size(); d.resize(end, 0); }
    if (k) memcpy(d.data() + o->pos, b, k);
    o->pos += k;
    maybe_crash("crash_in_write");
    if (bad) {
        if (g_in_close) g_close_failed = true;
        if (g_in_seek) g_seek_failed = true;          // a seek flushes what is buffered
        if (g_header_last) g_placeholder_failed = true; errno = ENOSPC; return (ssize_t)k; }
    return (ssize_t)n;
}
static int k_seek(void* c, off64_t* off, int whence) {
    Open* o = (Open*)c;
    maybe_crash("crash_in_seek");
    if (fails("seek_error")) { g_seek_failed = true; errno = EIO; return -1; }
    int64_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (int64_t)o->pos : (int64_t)g_disk[o->path].size();
    if (base + *off < 0) { errno = EINVAL; return -1; }
    o->pos = (size_t)(base + *off);
    *off = (off64_t)o->pos;
    return 0;
}
static int k_close(void*) {
    maybe_crash("crash_in_close");
    if (fails("close_error")) { g_close_failed = true; errno = EIO; return -1; }
    return 0;
}
extern "C" {
FILE* sim_fopen(const char* path, const char* mode) {
    if (!path || !mode) violation("null-path", "fopen called with a null path");
    bool w = mode[0] == 'w', plus = strchr(mode, '+') != nullptr;
    maybe_crash("crash_in_open");
    if (fails("open_error")) { errno = EMFILE; return nullptr; }
    if (!w && !g_disk.count(path)) { errno = ENOENT; return nullptr; }
    if (w) g_disk[path].clear();
    Open* o = new Open;
    o->path = path; o->rd = !w || plus; o->wr = w || plus;
    cookie_io_functions_t io = {o->rd ? k_read : nullptr, o->wr ? k_write : nullptr, k_seek, k_close};
    g_opened_any = true;
    o->f = fopencookie(o, mode, io);
    static const int sz[] = {0, 4096, 512, 64, 16};
    int s = sz[g_armed ? ch(5) : 1];
    if (!s) setvbuf(o->f, nullptr, _IONBF, 0);
    else { o->vbuf = (char*)malloc(s); setvbuf(o->f, o->vbuf, _IOFBF, s); }
    g_open.insert(o);
    return o->f;
}
static Open* need(FILE* f, const char* what) {
    Open* o = find_open(f);
    if (!o) violation(std::string("bad-handle-") + what + (g_alloc_failed && !g_opened_any ? "@allocation-failed-before-open" : ""), "%s on a handle that is not open", what);
    return o;
}
int sim_fclose(FILE* f) {
    Open* o = need(f, "fclose");
    g_open.erase(o);
    g_in_close = true;
    int r = fclose(f);
    g_in_close = false;
    free(o->vbuf); delete o;
    return r;
}
size_t sim_fread(void* p, size_t s, size_t n, FILE* f) { need(f, "fread"); return fread(p, s, n, f); }
size_t sim_fwrite(const void* p, size_t s, size_t n, FILE* f) { need(f, "fwrite"); return fwrite(p, s, n, f); }
int sim_fseek(FILE* f, long o, int w) { need(f, "fseek"); g_in_seek = true; int r = fseek(f, o, w); g_in_seek = false; return r; }
long sim_ftell(FILE* f) { need(f, "ftell"); return ftell(f); }
void sim_rewind(FILE* f) { need(f, "rewind"); g_in_seek = true; rewind(f); g_in_seek = false; }
int sim_fgetpos(FILE* f, fpos_t* p) { need(f, "fgetpos"); return fgetpos(f, p); }
int sim_fsetpos(FILE* f, const fpos_t* p) { need(f, "fsetpos"); g_in_seek = true; int r = fsetpos(f, p); g_in_seek = false; return r; }
int sim_fflush(FILE* f) { need(f, "fflush"); return fflush(f); }
int sim_ferror(FILE* f) { need(f, "ferror"); return ferror(f); }
int sim_feof(FILE* f) { need(f, "feof"); return feof(f); }
void sim_clearerr(FILE* f) { need(f, "clearerr"); clearerr(f); }
int sim_fgetc(FILE* f) { need(f, "fgetc"); return fgetc(f); }
int sim_fputc(int c, FILE* f) { need(f, "fputc"); return fputc(c, f); }
int sim_setvbuf(FILE* f, char* b, int m, size_t n) { need(f, "setvbuf"); return setvbuf(f, b, m, n); }
int sim_remove(const char* path) { if (fails("remove_error")) return -1; return g_disk.erase(path) ? 0 : -1; }
int sim_printf(const char* fmt, ...) {
    char t[2048];
    va_list ap; va_start(ap, fmt);
    int k = vsnprintf(t, sizeof t, fmt, ap);
    va_end(ap);
    g_printed += t;
    return k;
}
}

// ================================================================= simulated heap
struct Block { uint8_t* map; size_t span; size_t n; };
static std::map<uint8_t*, Block> g_heap;
static uint64_t g_alloc_no = 0;
struct HeapPlan { int mode = 0; uint64_t at = 0; size_t limit = 0; int den = 3; };
static HeapPlan g_heap_plan;
static bool alloc_fails(size_t n) {
    if (!g_armed) return false;
    uint64_t k = g_alloc_no++;
    bool bad = false;
    switch (g_heap_plan.mode) {
    case 1: bad = k == g_heap_plan.at; break;
    case 2: bad = n > g_heap_plan.limit; break;
    case 3: bad = chance(1, (uint32_t)g_heap_plan.den); break;
    case 4: bad = true; break;
    default: break;
    }
    if (bad) { g_injected++; g_alloc_failed = true; fault("allocation_failure"); }
    return bad;
}
extern "C" {
void* sim_malloc(size_t n) {
    if (alloc_fails(n) || n > (64u << 20)) { errno = ENOMEM; return nullptr; }
    size_t pages = (n + 16 + 4095) / 4096;
    uint8_t* m = (uint8_t*)mmap(nullptr, (pages + 2) * 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (m == (uint8_t*)MAP_FAILED) { fprintf(stderr, "sim_malloc\n"); _Exit(3); }
    mprotect(m + 4096, pages * 4096, PROT_READ | PROT_WRITE);
    uint8_t* p = m + 4096 + pages * 4096 - (n + 15) / 16 * 16;
    Rng r(g_alloc_no + 99);
    for (uint8_t* q = m + 4096; q < m + 4096 + pages * 4096; q++) *q = (uint8_t)r.next();
    for (uint8_t* q = p + n; q < m + 4096 + pages * 4096; q++) *q = 0x5A;
    g_heap[p] = {m, (pages + 2) * 4096, n};
    return p;
}
void sim_free(void* p) {
    if (!p) return;
    auto it = g_heap.find((uint8_t*)p);
    if (it == g_heap.end()) violation("bad-free", "free of a pointer that is not allocated");
    for (uint8_t* q = it->first + it->second.n; q < it->second.map + it->second.span - 4096; q++)
        if (*q != 0x5A) violation("heap-overflow", "write at byte %zu of a %zu byte allocation", (size_t)(q - it->first), it->second.n);
    munmap(it->second.map, it->second.span);
    g_heap.erase(it);
}
void* sim_calloc(size_t a, size_t b) { void* p = sim_malloc(a * b); if (p) memset(p, 0, a * b); return p; }
void* sim_realloc(void* p, size_t n) {
    void* q = sim_malloc(n);
    if (q && p) { memcpy(q, p, std::min(n, g_heap[(uint8_t*)p].n)); sim_free(p); }
    return q;
}
}
static void gen_plan(bool heap) {
    g_plan = Plan(); g_heap_plan = HeapPlan();
    switch (ch(heap ? 6 : 5)) {
    case 0: break;
    case 1: g_plan.mode = 1; g_plan.at = ch(ch(2) ? 60 : 12); break;
    case 2: g_plan.mode = 2; g_plan.den = range(2, 40); break;
    case 3: g_plan.mode = 3; g_plan.at = ch(40); break;
    case 4: g_plan.room = ch(ch(2) ? 1200 : 40); break;
    default: break;
    }
    g_plan.shorts = flip();
    if (heap) switch (ch(5)) {
    case 0: case 1: break;
    case 2: g_heap_plan.mode = 1; g_heap_plan.at = ch(6); break;
    case 3: g_heap_plan.mode = 2; { int s = (int)ch(12); g_heap_plan.limit = (size_t)100 << s; } break;
    default: g_heap_plan.mode = 3; g_heap_plan.den = range(1, 4); break;
    }
}
template <class F> static void guarded(const char* what, F fn) {          // runs library code on its own (dirty) stack
    context(what);
    run_solo([&] { fn(); });
}
static void arm(bool on) { g_armed = on; if (on) { g_seek_failed = g_close_failed = g_placeholder_failed = g_alloc_failed = g_read_failed = g_opened_any = false; g_ops = 0; g_injected = 0; g_grown = 0; g_alloc_no = 0; } }
static void check_clean(const char* what) {
    if (!g_open.empty()) violation("leaked-file", "%s left %zu file(s) open", what, g_open.size());
    if (!g_heap.empty()) violation("leaked-memory", "%s left %zu allocation(s)", what, g_heap.size());
}

// ================================================================= IDX reference
static const int kTypes[6] = {0x08, 0x09, 0x0B, 0x0C, 0x0D, 0x0E};
static int idx_size(int t) { switch (t) { case 8: case 9: return 1; case 0xB: return 2; case 0xC: case 0xD: return 4; case 0xE: return 8; default: return 0; } }
struct Idx { int type = 0; std::vector<uint32_t> dims; Bytes data; };     // data in host order
static uint64_t count_of(const std::vector<uint32_t>& d) { uint64_t n = 1; for (uint32_t x : d) n *= x; return n; }
static Bytes swapped(const Bytes& d, int es) { Bytes o = d; for (size_t i = 0; i + es <= d.size(); i += es) for (int k = 0; k < es; k++) o[i + k] = d[i + es - 1 - k]; return o; }
static Bytes encode(const Idx& x) {
    Bytes f = {0, 0, (uint8_t)x.type, (uint8_t)x.dims.size()};
    for (uint32_t d : x.dims) for (int k = 3; k >= 0; k--) f.push_back((uint8_t)(d >> (8 * k)));
    Bytes b = swapped(x.data, idx_size(x.type));
    f.insert(f.end(), b.begin(), b.end());
    return f;
}
static bool decode(const Bytes& f, Idx& x) {
    if (f.size() < 4 || f[0] || f[1]) return false;
    x.type = f[2]; int es = idx_size(x.type), nd = f[3];
    if (!es || f.size() < 4u * (nd + 1)) return false;
    x.dims.clear();
    unsigned __int128 n = (unsigned)es; bool zero = false;
    for (int i = 0; i < nd; i++) {
        uint32_t d = 0; for (int k = 0; k < 4; k++) d = d << 8 | f[4 + 4 * i + k];
        x.dims.push_back(d);
        if (!d) zero = true;
        else if (n < ((unsigned __int128)1 << 80)) n *= d;
    }
    if (zero) n = 0;
    if (n != f.size() - 4u * (nd + 1)) return false;
    x.data = swapped(Bytes(f.begin() + 4 * (nd + 1), f.end()), es);
    return true;
}
// Which listed finding, if any, makes the reader take this damaged file for a good one.
static std::string damaged_class(const Bytes& f) {
    if (f.size() < 4 || !idx_size(f[2]) || f.size() < 4u * (f[3] + 1)) return "";
    uint32_t n = 1; bool wraps = false; unsigned __int128 full = 1;
    for (int i = 0; i < f[3]; i++) { uint32_t d = 0; for (int k = 0; k < 4; k++) d = d << 8 | f[4 + 4 * i + k]; n *= d; full *= d; if (full >> 64) full = 1ull << 40, wraps = true; }
    wraps = wraps || full * (unsigned)idx_size(f[2]) > 0xFFFFFFFFull;
    if (wraps) return "@size-modulo-2^32";
    Bytes g = f; g[0] = g[1] = 0; Idx x;
    if ((f[0] || f[1]) && decode(g, x)) return "@magic-ignored";
    return "";
}
static Idx gen_idx(int max_dim = 5, uint64_t max_el = 300) {
    Idx x; x.type = kTypes[ch(6)];
    int nd = chance(1, 10) ? range(1, 20) : range(1, max_dim);
    for (int i = 0; i < nd; i++) {
        uint32_t d = chance(1, 25) ? 0 : nd > 6 ? (uint32_t)range(1, 2) : (uint32_t)range(1, chance(1, 4) ? 40 : 6);
        if (d && count_of(x.dims) * d > max_el) d = 1;
        x.dims.push_back(d);
    }
    Rng r(data_seed());
    x.data.resize(count_of(x.dims) * idx_size(x.type));
    for (auto& b : x.data) b = (uint8_t)r.next();
    return x;
}

// ================================================================= C12
// Reads a file and judges what comes back against the bytes on the disk.
static void read_and_judge(const std::string& path, bool faults) {
    Idx x; bool exists = g_disk.count(path) > 0;
    const Bytes file = exists ? g_disk[path] : Bytes();
    bool ok = exists && decode(file, x);
    const std::string cls = exists && !ok ? damaged_class(file) : "";
    auto key = [&](const char* k) { return k + (cls.empty() && g_seek_failed ? std::string("@failed-seek") : cls); };
    uint64_t need_bytes = ok ? x.data.size() : 64;
    uint32_t need_dims = ok ? (uint32_t)x.dims.size() : 4;
    uint32_t have = (uint32_t)need_bytes, hdims = need_dims;
    switch (ch(4)) { case 0: break; case 1: have += ch(40); hdims += ch(3); break; case 2: if (have) have -= 1 + ch(have); break; default: if (hdims) hdims -= 1 + ch(hdims); }
    Buf data = alloc(have, "caller's data", -1, 8), shape = alloc(hdims * 4, "caller's shape", -1, 4);
    uint32_t* sz = boxed<uint32_t>("data size"); uint32_t* nd = boxed<uint32_t>("shape size"); tIdxDataType* ty = boxed<tIdxDataType>("type");
    *sz = have; *nd = hdims; *ty = (tIdxDataType)0x55;
    bool pieces = flip();
    bool enough = have >= need_bytes && hdims >= need_dims;
    Image im = snapshot();
    Mask m; m.allow(data.p, data.n); m.allow(shape.p, shape.n); m.allow(sz, 4); m.allow(nd, 4); m.allow(ty, sizeof *ty);
    stack_garbage(data_seed());
    arm(faults);
    int st = -1; bool opened = true;
    Bytes got; std::vector<uint32_t> gdims; int gtype = 0; bool got_all = false;
    if (!pieces) {
        guarded("idx_file_read_completely", [&] { st = idx_file_read_completely(path.c_str(), data.p, sz, (uint32_t*)shape.p, nd, ty); });
        arm(false);
        check_clean("idx_file_read_completely");
        if (st == IDX_ERR_NONE) {
            got_all = true; gtype = *ty; gdims.assign((uint32_t*)shape.p, (uint32_t*)shape.p + std::min<uint32_t>(*nd, hdims)); got.assign(data.p, data.p + std::min(*sz, have));
            if (*nd > hdims || *sz > have) violation(key("read-size"), "idx_file_read_completely reports success with %u bytes, %u dimensions in buffers of %u, %u", *sz, *nd, have, hdims);
        }
        if (st == IDX_ERR_NOT_ENOUGH_MEM && !g_injected) {
            if (enough) violation(key("read-refused"), "enough memory was given");
            if (ok && (*sz != need_bytes || *nd != need_dims)) violation(key("read-required"), "required sizes %u, %u reported instead of %llu, %u", *sz, *nd, (unsigned long long)need_bytes, need_dims);
        }
    } else {
        // open, inspect, read the shape, then the data in pieces, as the repository's own callers do
        guarded("idx piecewise read", [&] {
            FILE* f = sim_fopen(path.c_str(), "rb");
            if (!f) { opened = false; return; }
            tIdxDescr d; memset(&d, 0xEE, sizeof d); d.opened_file = f;
            st = idx_file_check_and_get_info(&d);
            if (st == IDX_ERR_NONE) {
                uint64_t total = d.num_elements; int es = data_elem_size(d.data_type); uint32_t n = d.num_dim;
                gtype = d.data_type;
                if (ok && (gtype != x.type || total != count_of(x.dims) || n != x.dims.size())) violation(key("info"), "idx_file_check_and_get_info reports type %d, %u dimensions, %llu elements; the file has type %d, %zu dimensions, %llu elements", gtype, n, (unsigned long long)total, x.type, x.dims.size(), (unsigned long long)count_of(x.dims));
                if (n <= hdims && total * es <= have) {
                    bool with_data = flip() && total;
                    uint64_t done = 0;
                    d.num_elements = with_data ? (uint32_t)(1 + ch((uint32_t)total)) : 0;
                    uint32_t first = d.num_elements;
                    st = idx_file_read_data(&d, data.p, (uint32_t*)shape.p);
                    done = first;
                    while (st == IDX_ERR_NONE && done < total) {
                        d.num_elements = 1 + ch((uint32_t)(total - done)); uint32_t k = d.num_elements;
                        st = idx_file_read_data(&d, data.p + done * es, nullptr);
                        done += k;
                    }
                    if (st == IDX_ERR_NONE) { got_all = true; gdims.assign((uint32_t*)shape.p, (uint32_t*)shape.p + n); got.assign(data.p, data.p + total * es); }
                } else st = IDX_ERR_NOT_ENOUGH_MEM;
            }
            sim_fclose(f);
        });
        arm(false);
        check_clean("piecewise reading");
    }
    std::string df = diff(im, m);
    if (!df.empty()) violation("stray-write", "reading an IDX file wrote outside the caller's buffers: %s", df.c_str());
    if (got_all) {
        if (!ok) violation(key("corrupt-accepted"), "reading a damaged file (%zu bytes) reports success", file.size());
        if (gtype != x.type || gdims != x.dims || got != x.data) violation(key("wrong-data"), "reading reports success but type, shape or data differ from the file's");
        probe("file_read_back");
    } else if (ok && enough && opened && !g_injected) violation("spurious-error", "reading an intact file fails with status %d although nothing failed", st);
    else if (ok && enough && !opened && !g_injected) violation("spurious-error", "opening an intact file fails");
    if (g_disk.count(path) != (size_t)exists || (exists && g_disk[path] != file)) violation("file-changed", "reading changed the file");
    mix((uint64_t)st); mix(hash_bytes(got)); mix(hash_bytes(file)); mix(g_ops); mix(g_injected);
}
SIM_SCENARIO(C12, write_then_read) {
    Idx x = gen_idx();
    int es = idx_size(x.type);
    Bytes want = encode(x);
    Buf data = alloc(x.data.size(), "data to write", -1, 8); if (!x.data.empty()) memcpy(data.p, x.data.data(), x.data.size());
    Buf shape = alloc(x.dims.size() * 4, "shape to write", -1, 4); memcpy(shape.p, x.dims.data(), x.dims.size() * 4);
    if (chance(1, 3)) { g_disk["/w"] = Bytes(ch(3000), 0x77); probe("file_existed_before"); }
    gen_plan(false);
    bool crash = chance(1, 4);
    if (crash) g_plan.crash_at = ch(12);
    int how = (int)ch(4);
    if (how && x.dims.size() > 16) how = 0;
    if (how == 3 && x.dims.size() == 1 && x.dims[0] == 0) how = 1;
    Image im = snapshot();
    stack_garbage(data_seed());
    int st = -1; bool finished = false;
    arm(true);
    guarded("writing an IDX file", [&] {
        if (how == 0) { st = idx_file_write_completely("/w", data.p, (uint32_t*)shape.p, (uint32_t)x.dims.size(), (tIdxDataType)x.type); finished = true; return; }
        FILE* f = sim_fopen("/w", "wb");
        if (!f) { st = IDX_ERR_FILE_ACC; finished = true; return; }
        tIdxDescr d; d.opened_file = f; d.num_dim = (uint8_t)x.dims.size(); d.data_type = (tIdxDataType)x.type; d.num_elements = 0;
        st = IDX_ERR_NONE;
        g_header_last = how == 2;
        if (how != 2) st = idx_file_write_header(&d, (uint32_t*)shape.p);     // header first (1), last (2) or both (3)
        uint64_t total = count_of(x.dims), done = 0;
        while (st == IDX_ERR_NONE && done < total) {
            d.num_elements = 1 + ch((uint32_t)(total - done)); uint32_t k = d.num_elements;
            st = idx_file_write_data(&d, data.p + done * es);
            done += k;
        }
        if (st == IDX_ERR_NONE && how != 1) st = idx_file_write_header(&d, (uint32_t*)shape.p);
        if (sim_fclose(f) != 0 && st == IDX_ERR_NONE) st = IDX_ERR_FILE_ACC;
        finished = true;
    });
    bool injected = g_injected > 0;
    g_header_last = false;
    arm(false);
    std::string df = diff(im);
    if (!df.empty()) violation("stray-write", "writing an IDX file changed memory: %s", df.c_str());
    if (finished) {
        if (how == 0) check_clean("idx_file_write_completely");
        if (st == IDX_ERR_NONE) {
            if (g_disk["/w"] != want) violation("lost-write" + (how ? (g_placeholder_failed ? "@failed-placeholder-header" : g_seek_failed ? "@failed-seek" : std::string()) : io_circumstance()), "writing reports success but the file has %zu bytes that are not the %zu expected ones", g_disk["/w"].size(), want.size());
            probe("file_written");
        } else if (!injected) violation("spurious-error", "writing fails with status %d although nothing failed", st);
    } else {
        probe("crashed_while_writing");
        g_open.clear();
    }
    mix((uint64_t)st); mix(hash_bytes(want));
    gen_plan(false);
    bool rf = flip();
    // what a crash or a reported error left behind must never be taken for the complete file unless it is
    if (!finished || st != IDX_ERR_NONE) {
        Idx y;
        if (how == 0 && g_disk.count("/w") && decode(g_disk["/w"], y) && g_disk["/w"] != want && !g_disk["/w"].empty() && g_disk["/w"][0] != 0x77) violation("torn-file-valid", "an interrupted write left a file that passes for a different complete one");
    }
    read_and_judge("/w", rf);
    nontrivial();
}
SIM_SCENARIO(C12, damaged_file) {
    Idx x = gen_idx();
    Bytes f = encode(x);
    int n = range(0, 2);
    for (int i = 0; i < n; i++) {
        switch (ch(8)) {
        case 0: f.resize(ch((uint32_t)f.size() + 1)); fault("truncated_file"); break;
        case 1: { int k = range(1, 20); Rng r(data_seed()); for (int j = 0; j < k; j++) f.push_back((uint8_t)r.next()); fault("bytes_appended"); break; }
        case 2: if (f.size() > 3) { f[2] = (uint8_t)ch(256); fault("header_type_changed"); } break;
        case 3: if (f.size() > 3) { f[3] = (uint8_t)(flip() ? ch(256) : ch(8)); fault("header_rank_changed"); } break;
        case 4: if (f.size() > 7) { size_t k = 4 + ch((uint32_t)std::min<size_t>(f.size() - 4, 4 * x.dims.size())); f[k] = (uint8_t)ch(256); fault("header_dimension_changed"); } break;
        case 5: if (f.size() > 3) { f[ch(2)] = (uint8_t)ch(256); fault("header_magic_changed"); } break;
        case 6: {                                  // dimensions whose product or byte size only agrees modulo 2^32
            int nd = range(2, 4); Idx y; y.type = x.type;
            for (int j = 0; j < nd; j++) y.dims.push_back(1u << range(8, 16));
            if (flip()) y.dims[0] += 1u << 31;
            y.data = Bytes(flip() ? 0 : ch(50));
            f = encode(y); fault("header_product_overflows"); break;
        }
        default: { Rng r(data_seed()); f.resize(ch(60)); for (auto& b : f) b = (uint8_t)r.next(); if (f.size() > 3 && flip()) { f[0] = f[1] = 0; f[2] = (uint8_t)kTypes[ch(6)]; f[3] = (uint8_t)ch(5); } fault("garbage_file"); }
        }
    }
    if (!chance(1, 20)) g_disk["/r"] = f; else fault("missing_file");
    gen_plan(false);
    read_and_judge("/r", flip());
    nontrivial();
}
SIM_SCENARIO(C12, refused_arguments) {
    Idx x = gen_idx(3, 40);
    Buf data = alloc(x.data.size() + 8, "data to write", -1, 8), shape = alloc(300 * 4, "shape to write", -1, 4);
    for (int i = 0; i < 300; i++) { uint32_t v = i < (int)x.dims.size() ? x.dims[i] : 1; memcpy(shape.p + 4 * i, &v, 4); }
    uint32_t nd = (uint32_t)x.dims.size(); int ty = x.type; void* dp = data.p; uint32_t* sp = (uint32_t*)shape.p; const char* path = "/w";
    switch (ch(6)) {
    case 0: { do ty = (int)ch(256); while (idx_size(ty)); break; }
    case 1: nd = 0; break;
    case 2: nd = 256 + ch(40); break;
    case 3: dp = nullptr; break;
    case 4: sp = nullptr; break;
    default: path = nullptr;
    }
    fault("invalid_argument");
    int st = 0;
    Image im = snapshot();
    stack_garbage(data_seed());
    guarded(!idx_size(ty) ? "idx_file_write_completely with an unknown element type" : "idx_file_write_completely", [&] { st = idx_file_write_completely(path, dp, sp, nd, (tIdxDataType)ty); });
    check_clean("idx_file_write_completely");
    if (!diff(im).empty()) violation("stray-write", "a refused write changed memory");
    if (st == IDX_ERR_NONE) violation(nd > 255 ? "bad-argument-accepted@over-255-dimensions" : "bad-argument-accepted", "idx_file_write_completely reports success for type 0x%02x, %u dimensions", ty, nd);
    mix(ty); mix(nd); mix((uint64_t)(path ? 1 : 0) | (dp ? 2 : 0) | (sp ? 4 : 0));
    nontrivial();
}

// ================================================================= C16
static void put32(Bytes& b, size_t o, uint32_t v) { for (int i = 0; i < 4; i++) b[o + i] = (uint8_t)(v >> (8 * i)); }
static Bytes bmp_file(int w, int h, const Bytes& rgb) {
    Bytes f(54 + rgb.size(), 0);
    f[0] = 'B'; f[1] = 'M'; put32(f, 2, (uint32_t)f.size()); put32(f, 10, 54); put32(f, 14, 40); put32(f, 18, (uint32_t)w); put32(f, 22, (uint32_t)h);
    f[26] = 1; f[28] = 24; put32(f, 34, (uint32_t)rgb.size());
    size_t o = 54;
    for (int y = h - 1; y >= 0; y--) for (int x = 0; x < w; x++) { const uint8_t* p = &rgb[(size_t)(y * w + x) * 3]; f[o++] = p[2]; f[o++] = p[1]; f[o++] = p[0]; }
    return f;
}
SIM_SCENARIO(C16, bmp) {
    int w = 4 * range(1, 6), h = range(1, 12);                      // rows without padding
    Bytes rgb((size_t)w * h * 3);
    Rng r(data_seed()); for (auto& b : rgb) b = (uint8_t)r.next();
    Bytes good = bmp_file(w, h, rgb), f = good;
    bool by_library = flip();
    if (by_library) {                                               // an image written on a healthy disk reads back
        Buf img = alloc(rgb.size(), "image", -1, 1); memcpy(img.p, rgb.data(), rgb.size());
        Image im = snapshot();
        stack_garbage(data_seed());
        guarded("bmp_rgb_write", [&] { bmp_rgb_write("/b", img.p, w, h); });
        check_clean("bmp_rgb_write");
        if (!diff(im).empty()) violation("stray-write", "bmp_rgb_write changed memory");
        f = good = g_disk["/b"];
        probe("written_by_library");
    }
    bool damaged = false, missing = false;
    int reqw = w, reqh = h;
    switch (ch(8)) {
    case 0: case 1: break;
    case 2: f.resize(ch((uint32_t)f.size())); damaged = true; fault("truncated_file"); break;
    case 3: f[ch(2)] ^= (uint8_t)(1 + ch(255)); damaged = true; fault("header_type_changed"); break;
    case 4: f[18 + ch(8)] ^= (uint8_t)(1 + ch(255)); damaged = true; fault("header_size_changed"); break;
    case 5: f[28 + ch(2)] ^= (uint8_t)(1 + ch(255)); damaged = true; fault("header_depth_changed"); break;
    case 6: if (flip()) reqw += (int)range(1, 3) * (flip() ? 1 : -1); else reqh += 1; damaged = true; fault("other_size_requested"); break;
    default: missing = true; fault("missing_file");
    }
    if (missing) g_disk.erase("/b"); else g_disk["/b"] = f;
    gen_plan(true);
    stack_garbage(data_seed());
    uint8_t* img = nullptr;
    Image im = snapshot();
    arm(flip());
    g_injected = 0;
    guarded("bmp_rgb_read", [&] { img = bmp_rgb_read("/b", reqw, reqh); });
    arm(false);
    if (!diff(im).empty()) violation("stray-write", "bmp_rgb_read wrote outside its image");
    if (!g_open.empty()) violation("leaked-file", "bmp_rgb_read left a file open");
    if (img) {
        auto it = g_heap.find(img);
        if (it == g_heap.end()) violation("bad-image", "the image is not an allocation");
        if (missing || damaged) violation(damaged && f.size() < good.size() ? "damaged-image-accepted@truncated" : g_read_failed ? "damaged-image-accepted@failed-read" : "damaged-image-accepted", "bmp_rgb_read returns an image from a damaged file (%zu of %zu bytes)", f.size(), good.size());
        if (it->second.n < rgb.size() || memcmp(img, rgb.data(), rgb.size())) violation(g_read_failed ? "wrong-image@failed-read" : "wrong-image", "bmp_rgb_read returns a %dx%d image that is not the stored one", w, h);
        probe("image_read");
        sim_free(img);
    } else if (!missing && !damaged && !g_injected) violation("spurious-error", "bmp_rgb_read refuses an intact image although nothing failed");
    if (!g_heap.empty()) violation("leaked-memory", "bmp_rgb_read leaks memory");
    mix(hash_bytes(f)); mix(img != nullptr); mix(g_injected); mix(g_ops);
    nontrivial();
}

// ================================================================= C13
namespace {
struct Model {
    mli_tensor *in = nullptr, *out = nullptr;
    std::vector<uint64_t> log;                  // which input each inference saw
    int type = 0; size_t in_el = 0, out_el = 0;
    uint64_t salt = 0;
};
Model* g_model;
uint64_t digest(const void* p, size_t n) { uint64_t h = 0x9E37; for (size_t i = 0; i < n; i++) h = (h ^ ((const uint8_t*)p)[i]) * 0x100000001B3ull; return h ^ (h >> 31); }
}
// The "network": its output is a digest of the input, with one clear maximum.
static std::vector<int> infer(const Model& m, uint64_t h) {
    Rng r(h ^ m.salt);
    std::vector<int> v(m.out_el);
    for (auto& x : v) x = r.range(-100, 90);
    if (!v.empty()) v[r.next() % v.size()] = 100;
    return v;
}
static uint64_t g_seen;
static void preprocess_cb(const void* p, mli_tensor* t) {
    if (t != g_model->in) violation("wrong-tensor", "preprocessing was given another tensor");
    g_seen = digest(p, g_model->in_el * (size_t)idx_size(g_model->type));
}
static void inference_cb(const char* par) {
    if (!par || strcmp(par, "par")) violation("wrong-parameter", "inference was given another parameter");
    g_model->log.push_back(g_seen);
    std::vector<int> v = infer(*g_model, g_seen);
    for (size_t i = 0; i < v.size(); i++) { if (el_size(g_model->out->el_type) == 2) g_model->out->data.mem.pi16[i] = (int16_t)v[i]; else g_model->out->data.mem.pi8[i] = (int8_t)v[i]; }
}
static mli_tensor* model_tensor(const char* nm, int rank, mli_element_type et, Buf& b) {
    mli_tensor* t = boxed<mli_tensor>(nm);
    t->rank = (uint32_t)rank; t->el_type = et;
    size_t n = 1; for (int i = 0; i < rank; i++) { t->shape[i] = (uint32_t)range(1, 4); n *= t->shape[i]; }
    int32_t s = 1; for (int i = rank - 1; i >= 0; i--) { t->mem_stride[i] = s; s *= (int32_t)t->shape[i]; }
    b = alloc(n * (size_t)el_size(et), nm, -1, 4);
    t->data.mem.pi8 = (int8_t*)b.p; t->data.capacity = (uint32_t)b.n;
    memset(&t->el_params, 0, sizeof t->el_params);
    if (et == MLI_EL_SA_8) set_scalar_sa(t, (int16_t)range(-20, 20), (int16_t)range(1, 5), (int8_t)range(0, 4)); else t->el_params.fx.frac_bits = (int8_t)range(0, 7);
    return t;
}
static Bytes float_row(const Model& m, uint64_t h) {
    std::vector<int> v = infer(m, h); Bytes b(v.size() * 4);
    for (size_t i = 0; i < v.size(); i++) {
        float x = m.out->el_type == MLI_EL_SA_8
            ? (float)m.out->el_params.sa.scale.mem.i16 / (float)(1ll << m.out->el_params.sa.scale_frac_bits.mem.i8) * (float)(v[i] - m.out->el_params.sa.zero_point.mem.i16)
            : (float)v[i] / (float)(1ll << m.out->el_params.fx.frac_bits);
        memcpy(&b[4 * i], &x, 4);
    }
    return b;
}
SIM_SCENARIO(C13, batch) {
    Model m; g_model = &m;
    Buf ib, ob;
    int rin = chance(1, 12) ? 4 : range(1, 3), rout = range(1, 4);
    m.in = model_tensor("model input", rin, MLI_EL_FX_16, ib);
    static const mli_element_type ot[] = {MLI_EL_FX_16, MLI_EL_SA_8, MLI_EL_FX_8};
    bool accuracy = flip();
    m.out = model_tensor("model output", rout, ot[ch(accuracy ? 2 : 3)], ob);
    m.in_el = ib.n / 2; m.out_el = ob.n / (size_t)el_size(m.out->el_type); m.salt = data_seed();
    Idx base; base.type = m.type = kTypes[ch(6)];
    uint32_t n = chance(1, 12) ? ch(10) : (uint32_t)range(10, chance(1, 2) ? 14 : 31);
    base.dims = {n}; for (int i = 0; i < rin; i++) base.dims.push_back(m.in->shape[i]);
    base.data.resize(n * m.in_el * (size_t)idx_size(m.type));
    Rng r(data_seed()); for (auto& b : base.data) b = (uint8_t)r.next();
    std::vector<uint64_t> want;
    size_t row = m.in_el * (size_t)idx_size(m.type);
    for (uint32_t i = 0; i < n; i++) want.push_back(digest(base.data.data() + i * row, row));
    Idx labels; uint32_t correct = 0;
    { static const int lt[] = {8, 9, 0xB, 0xC}; labels.type = lt[m.out_el > 100 ? 2 + ch(2) : ch(4)]; labels.dims = {n};
      int es = idx_size(labels.type); Rng q(data_seed());
      for (uint32_t i = 0; i < n; i++) {
          auto v = infer(m, want[i]); int top = (int)(std::max_element(v.begin(), v.end()) - v.begin());
          int l = q.range(0, 1) ? top : q.range(-1, (int)m.out_el); if (labels.type == 8 && l < 0) l = 0;
          if (l == top) correct++;
          int32_t x = l; for (int k = 0; k < es; k++) labels.data.push_back(((uint8_t*)&x)[k]);
      } }
    g_disk["/base"] = encode(base); g_disk["/labels"] = encode(labels);
    bool mismatch = false;
    switch (ch(7)) {
    case 0: { Idx b2 = base; int d = 1 + (int)ch(rin); b2.dims[d]++; b2.data.resize(count_of(b2.dims) * idx_size(b2.type)); g_disk["/base"] = encode(b2); mismatch = true; fault("base_shape_mismatch"); break; }
    case 1: { Idx b2 = base; if (flip()) b2.dims.push_back(1); else b2.dims.erase(b2.dims.begin()); b2.data.resize(count_of(b2.dims) * idx_size(b2.type)); g_disk["/base"] = encode(b2); mismatch = true; fault("base_rank_mismatch"); break; }
    case 2: if (accuracy) { Idx l2 = labels; if (flip() && n) l2.dims[0]--; else l2.dims[0]++; l2.data.resize(l2.dims[0] * idx_size(l2.type)); g_disk["/labels"] = encode(l2); mismatch = true; fault("label_count_mismatch"); } break;
    case 3: if (flip()) { auto& f = g_disk[accuracy && flip() ? "/labels" : "/base"]; f.resize(ch((uint32_t)f.size())); mismatch = true; fault("truncated_file"); } break;
    default: break;
    }
    if (chance(1, 3)) g_disk["/out"] = Bytes(ch(4000), 0x77);
    gen_plan(true);
    stack_garbage(data_seed());
    Image im = snapshot();
    Mask mk; mk.allow(ob.p, ob.n);
    test_status st = TEST_FAILED;
    bool faults = !chance(1, 3);
    arm(faults); g_injected = 0;
    std::string who = accuracy ? "model_run_acc_on_idx_base" : "model_run_idx_base_to_idx_out";
    g_header_last = !accuracy;
    // (the first two are listed findings)
    if (rin == 4) who += " with a rank 4 input"; else if (n < 10) who += " with less than 10 vectors";
    guarded(who.c_str(), [&] {
        st = accuracy ? model_run_acc_on_idx_base("/base", "/labels", m.in, m.out, preprocess_cb, inference_cb, "par")
                      : model_run_idx_base_to_idx_out("/base", "/out", m.in, m.out, preprocess_cb, inference_cb, "par");
    });
    g_header_last = false;
    arm(false);
    check_clean(accuracy ? "model_run_acc_on_idx_base" : "model_run_idx_base_to_idx_out");
    std::string df = diff(im, mk);
    if (!df.empty()) violation("stray-write", "the runner changed memory: %s", df.c_str());
    if (st == TEST_PASSED) {
        if (mismatch) violation("mismatch-accepted" + rd_circumstance(), "the runner reports success for files that do not match the model");
        if (m.log != want) violation("inferences" + rd_circumstance(), "success is reported after %zu inferences that are not the %u vectors in order", m.log.size(), n);
        if (!accuracy) {
            Idx o; o.type = 0x0D; o.dims = {n}; for (int i = 0; i < rout; i++) o.dims.push_back(m.out->shape[i]);
            for (uint64_t h : want) { Bytes b = float_row(m, h); o.data.insert(o.data.end(), b.begin(), b.end()); }
            Idx got;
            if (!decode(g_disk["/out"], got)) violation("result-file" + io_circumstance(), "success is reported but the result file (%zu bytes) is not a valid IDX file", g_disk["/out"].size());
            if (got.type != o.type || got.dims != o.dims || got.data != o.data) violation("result-file" + io_circumstance(), "success is reported but the result file does not hold the %u results", n);
        } else {
            size_t p = g_printed.rfind("are correct of ");
            unsigned a = 0, b = 0;
            if (p != std::string::npos) { size_t q = g_printed.rfind('(', p); if (q != std::string::npos && sscanf(g_printed.c_str() + q, "(%u are correct of %u", &a, &b) == 2 && (a != correct || b != n)) violation("accuracy" + rd_circumstance(), "%u of %u reported, %u of %u are correct", a, b, correct, n); }
        }
        probe("batch_completed");
    } else if (!mismatch && !g_injected) violation("spurious-error", "the runner fails with status %d although nothing failed (%u vectors)", (int)st, n);
    mix((uint64_t)st); mix(hash_bytes(g_disk["/out"])); mix(digest(m.log.data(), m.log.size() * 8)); mix(g_injected);
    nontrivial();
}
SIM_SCENARIO(C13, single) {
    Model m; g_model = &m;
    Buf ib, ob;
    m.in = model_tensor("model input", range(1, 4), MLI_EL_FX_16, ib);
    static const mli_element_type ot[] = {MLI_EL_FX_16, MLI_EL_SA_8, MLI_EL_FX_8};
    m.out = model_tensor("model output", range(1, 4), ot[ch(3)], ob);
    m.type = kTypes[ch(6)]; m.in_el = ib.n / 2; m.out_el = ob.n / (size_t)el_size(m.out->el_type); m.salt = data_seed();
    Buf data = alloc(m.in_el * (size_t)idx_size(m.type), "input vector", -1, 8); fill(data, data_seed());
    Buf ref = alloc(m.out_el * 4, "reference", -1, 4); for (size_t i = 0; i < m.out_el; i++) { float x = (float)i; memcpy(ref.p + 4 * i, &x, 4); }
    gen_plan(true);
    stack_garbage(data_seed());
    Image im = snapshot(); Mask mk; mk.allow(ob.p, ob.n);
    test_status st = TEST_FAILED;
    arm(flip()); g_injected = 0;
    guarded("model_run_single_in", [&] { st = model_run_single_in(data.p, (const float*)ref.p, m.in, m.out, preprocess_cb, inference_cb, "par"); });
    arm(false);
    check_clean("model_run_single_in");
    std::string df = diff(im, mk);
    if (!df.empty()) violation("stray-write", "model_run_single_in changed memory: %s", df.c_str());
    if (st == TEST_PASSED) { if (m.log.size() != 1 || m.log[0] != digest(data.p, data.n)) violation("inferences", "success is reported after %zu inferences", m.log.size()); }
    else if (!g_injected) violation("spurious-error", "model_run_single_in fails with status %d although nothing failed", (int)st);
    mix((uint64_t)st); mix(hash_bytes(Bytes(ob.p, ob.p + ob.n))); mix(g_injected);
    nontrivial();
}

// ================================================================= C15
static Bytes floats(const std::vector<float>& v) { Bytes b(v.size() * 4); memcpy(b.data(), v.data(), b.size()); return b; }
struct Target { mli_tensor* t; Buf data, sc, zp, fr; Idx file; bool valid, fits; std::vector<int32_t> q; };
static Target gen_target(const std::string& nm, const std::string& path, bool may_damage) {
    Target T;
    static const mli_element_type et[] = {MLI_EL_FX_16, MLI_EL_FX_8, MLI_EL_SA_8, MLI_EL_SA_32};
    mli_element_type e = et[ch(4)];
    int rank = range(1, 4);
    T.file.type = 0x0D;
    for (int i = 0; i < rank; i++) { uint32_t d = (uint32_t)range(1, chance(1, 3) ? 30 : 7); if (count_of(T.file.dims) * d > 700) d = 1; T.file.dims.push_back(d); }
    size_t n = count_of(T.file.dims);
    T.t = boxed<mli_tensor>(nm.c_str()); T.t->el_type = e;
    T.fits = true;
    size_t cap = n * (size_t)el_size(e) + (chance(1, 3) ? ch(50) : 0);
    if (may_damage && chance(1, 8)) { cap = ch((uint32_t)(n * (size_t)el_size(e))); T.fits = false; fault("tensor_too_small"); }
    T.data = alloc(cap, (nm + " data").c_str(), -1, 4);
    T.t->data.mem.pi8 = (int8_t*)T.data.p; T.t->data.capacity = (uint32_t)cap;
    int axis = -1;
    if (e == MLI_EL_SA_8 || e == MLI_EL_SA_32) {
        if (chance(1, 6)) {
            axis = (int)ch(rank); int k = (int)T.file.dims[axis];
            Ten x; x.t = T.t; set_axis_sa(x, axis, k, nm.c_str()); T.sc = x.scale; T.zp = x.zp; T.fr = x.frac;
            Rng r(data_seed());
            for (int i = 0; i < k; i++) { int16_t s = (int16_t)(1 << r.range(0, 4)), z = (int16_t)r.range(-20, 20); memcpy(T.sc.p + 2 * i, &s, 2); memcpy(T.zp.p + 2 * i, &z, 2); T.fr.p[i] = (uint8_t)r.range(0, 5); }
        } else set_scalar_sa(T.t, (int16_t)range(-20, 20), (int16_t)(1 << range(0, 4)), (int8_t)range(0, 5));
    } else { memset(&T.t->el_params, 0, sizeof T.t->el_params); T.t->el_params.fx.frac_bits = (int8_t)range(0, 6); }
    // values on the quantisation grid: no rounding is involved
    Rng r(data_seed());
    std::vector<float> v(n); T.q.resize(n);
    size_t inner = 1; if (axis >= 0) for (int i = axis + 1; i < rank; i++) inner *= T.file.dims[i];
    for (size_t i = 0; i < n; i++) {
        int k = r.range(-100, 100); float s; int z = 0;
        if (e == MLI_EL_SA_8 || e == MLI_EL_SA_32) {
            if (axis >= 0) { size_t a = (i / inner) % T.file.dims[axis]; int16_t sc, zz; memcpy(&sc, T.sc.p + 2 * a, 2); memcpy(&zz, T.zp.p + 2 * a, 2); s = (float)sc / (float)(1 << T.fr.p[a]); z = zz; }
            else { s = (float)T.t->el_params.sa.scale.mem.i16 / (float)(1 << T.t->el_params.sa.scale_frac_bits.mem.i8); z = T.t->el_params.sa.zero_point.mem.i16; }
        } else s = 1.0f / (float)(1 << T.t->el_params.fx.frac_bits);
        v[i] = (float)k * s; T.q[i] = k + z;
    }
    T.file.data = floats(v);
    T.valid = true;
    Bytes f = encode(T.file);
    if (may_damage) switch (ch(12)) {
    case 0: f.resize(ch((uint32_t)f.size())); T.valid = false; fault("truncated_file"); break;
    case 1: f[2] = 0x0C; T.valid = false; fault("header_type_changed"); break;
    case 2: f.clear(); T.valid = false; fault("missing_file"); break;
    default: break;
    }
    if (!f.empty() || T.valid) g_disk[path] = f;
    return T;
}
SIM_SCENARIO(C15, load) {
    uint32_t n = 1 + ch(3);
    std::vector<Target> T; std::vector<std::string> names; std::vector<const char*> paths; std::vector<mli_tensor*> ts;
    std::string root = chance(1, 6) ? "/" + std::string(range(100, 200), 'd') : "/d";
    for (uint32_t i = 0; i < n; i++) names.push_back("t" + std::to_string(i) + (chance(1, 8) ? std::string(range(90, 160), 'x') : std::string()));
    bool all = true;
    for (uint32_t i = 0; i < n; i++) { T.push_back(gen_target("tensor" + std::to_string(i), root + "/" + names[i], true)); all = all && T[i].valid && T[i].fits; if ((root + "/" + names[i]).size() >= 127) { probe("long_path"); all = false; } }
    for (uint32_t i = 0; i < n; i++) { paths.push_back(names[i].c_str()); ts.push_back(T[i].t); }
    bool long_path = false; for (auto& x : names) long_path = long_path || (root + "/" + x).size() >= 128;
    std::string who = long_path ? "load_tensors_from_idx_files with a path that is too long" : "load_tensors_from_idx_files";
    Mask m; for (auto& x : T) { m.allow(x.t, sizeof(mli_tensor)); m.allow(x.data.p, x.data.n); }
    Image im0 = snapshot();
    auto judge = [&](test_status st, const char* how) {
        check_clean("load_tensors_from_idx_files");
        std::string d = diff(im0, m);
        if (!d.empty()) violation("stray-write", "loading tensors (%s) wrote outside them: %s", how, d.c_str());
        for (uint32_t i = 0; i < n; i++) if (T[i].t->data.mem.pi8 != (int8_t*)T[i].data.p) violation("moved-data", "loading tensors (%s) left tensor %u pointing elsewhere", how, i);
        if (st != TEST_PASSED) return;
        for (uint32_t i = 0; i < n; i++) {
            Target& x = T[i];
            if (!x.valid || !x.fits) violation("bad-file-accepted" + rd_circumstance(), "loading (%s) reports success for a damaged file or a too small tensor", how);
            if (x.t->rank != x.file.dims.size() || memcmp(x.t->shape, x.file.dims.data(), 4 * x.file.dims.size())) violation("shape" + rd_circumstance(), "tensor %u (%s) has another shape than its file", i, how);
            for (size_t k = 0; k < x.q.size(); k++) {
                int32_t got = el_size(x.t->el_type) == 4 ? ((int32_t*)x.data.p)[k] : el_size(x.t->el_type) == 2 ? ((int16_t*)x.data.p)[k] : ((int8_t*)x.data.p)[k];
                int32_t w = el_size(x.t->el_type) == 1 ? std::min(127, std::max(-128, x.q[k])) : x.q[k];
                if (got != w) violation("value" + rd_circumstance(), "element %zu of tensor %u (%s, %zu elements) is %d, its file says %d", k, i, how, x.q.size(), got, w);
            }
        }
    };
    stack_garbage(data_seed());
    test_status st = TEST_FAILED;
    guarded(who.c_str(), [&] { st = load_tensors_from_idx_files(root.c_str(), paths.data(), ts.data(), n); });
    judge(st, "ample memory");
    if (st != TEST_PASSED && all) violation("spurious-error", "loading fails with status %d although nothing failed", (int)st);
    Image after = snapshot();
    restore(im0);
    gen_plan(true);
    stack_garbage(data_seed());
    arm(true);
    test_status s2 = TEST_FAILED;
    guarded(who.c_str(), [&] { s2 = load_tensors_from_idx_files(root.c_str(), paths.data(), ts.data(), n); });
    arm(false);
    judge(s2, "with faults");
    if (s2 == TEST_PASSED) {
        if (st != TEST_PASSED) violation("fault-helps", "loading succeeds under faults and fails without");
        Mask none; std::string d = diff(after, none);
        if (!d.empty()) violation("differs" + rd_circumstance(), "tensors loaded under memory pressure differ: %s", d.c_str());
        probe(g_injected ? "loaded_despite_faults" : "loaded");
    } else if (st == TEST_PASSED && !g_injected) violation("spurious-error", "loading fails with status %d although nothing failed", (int)s2);
    mix((uint64_t)st * 8 + (uint64_t)s2); mix(g_injected); mix(g_ops); for (auto& x : T) mix(hash_bytes(Bytes(x.data.p, x.data.p + x.data.n)));
    nontrivial();
}
SIM_SCENARIO(C15, compare) {
    std::string root = chance(1, 8) ? "/" + std::string(range(200, 300), 'd') : "/d", name = "ref";
    Target T = gen_target("prediction", root + "/" + name, true);
    bool long_path = (root + "/" + name).size() >= 255;
    if (!T.fits) discard("tensor too small");
    mli_tensor pred = *T.t;
    pred.rank = (uint32_t)T.file.dims.size();
    int32_t s = 1; for (int i = (int)pred.rank - 1; i >= 0; i--) { pred.shape[i] = T.file.dims[i]; pred.mem_stride[i] = s; s *= (int32_t)T.file.dims[i]; }
    std::vector<float> ref(T.q.size()), val(T.q.size()); memcpy(ref.data(), T.file.data.data(), T.file.data.size());
    Rng r(data_seed());
    int axis = (pred.el_type == MLI_EL_SA_8 || pred.el_type == MLI_EL_SA_32) ? pred.el_params.sa.dim : -1;
    size_t inner = 1; if (axis >= 0) for (uint32_t i = axis + 1; i < pred.rank; i++) inner *= pred.shape[i];
    for (size_t k = 0; k < T.q.size(); k++) {
        int32_t q = T.q[k] + (r.range(0, 2) ? r.range(-3, 3) : 0);
        if (el_size(pred.el_type) == 1) q = std::min(127, std::max(-128, q));
        if (el_size(pred.el_type) == 4) ((int32_t*)T.data.p)[k] = q; else if (el_size(pred.el_type) == 2) ((int16_t*)T.data.p)[k] = (int16_t)q; else ((int8_t*)T.data.p)[k] = (int8_t)q;
        if (axis >= 0) { size_t a = (k / inner) % pred.shape[axis]; int16_t sc, z; memcpy(&sc, T.sc.p + 2 * a, 2); memcpy(&z, T.zp.p + 2 * a, 2); val[k] = (float)sc / (float)(1 << T.fr.p[a]) * (float)(q - z); }
        else if (pred.el_type == MLI_EL_SA_8 || pred.el_type == MLI_EL_SA_32) val[k] = (float)pred.el_params.sa.scale.mem.i16 / (float)(1 << pred.el_params.sa.scale_frac_bits.mem.i8) * (float)(q - pred.el_params.sa.zero_point.mem.i16);
        else val[k] = (float)q / (float)(1 << pred.el_params.fx.frac_bits);
    }
    bool other_shape = false;
    if (chance(1, 8)) { uint32_t d = ch(pred.rank); if (flip() || pred.rank < 2) pred.shape[d]++; else { uint32_t e = (d + 1) % pred.rank; if (pred.shape[d] == pred.shape[e]) discard("same"); std::swap(pred.shape[d], pred.shape[e]); } other_shape = true; if (axis >= 0) discard("axis size"); fault("shape_mismatch"); }
    ref_to_pred_output *o1 = boxed<ref_to_pred_output>("metrics"), *o2 = boxed<ref_to_pred_output>("metrics");
    if (flip()) { memset(o1, 0x5A, sizeof *o1); memset(o2, 0x5A, sizeof *o2); }
    std::string who = "measure_ref_to_pred", tag = axis >= 0 ? "@per-axis" : "";
    if ((root + "/" + name).size() >= 256) who += " with a path that is too long"; else if (axis >= 0) who += " with a tensor quantized per axis";
    Mask m; m.allow(o1, sizeof *o1); m.allow(o2, sizeof *o2);
    Image im = snapshot();
    auto common = [&](test_status st, const char* how) {
        check_clean("measure_ref_to_pred");
        std::string d = diff(im, m);
        if (!d.empty()) violation("stray-write", "measure_ref_to_pred (%s) changed memory: %s", how, d.c_str());
        if (st == TEST_PASSED && (!T.valid || other_shape)) violation("mismatch-accepted" + (g_read_failed ? "@failed-read" : rd_circumstance()), "measure_ref_to_pred (%s) compares with a damaged or differently shaped reference", how);
    };
    stack_garbage(data_seed());
    test_status s1 = TEST_FAILED, s2 = TEST_FAILED;
    guarded(who.c_str(), [&] { s1 = measure_ref_to_pred(root.c_str(), name.c_str(), pred, o1); });
    common(s1, "ample memory");
    if (s1 == TEST_PASSED) {
        double mx = -1, pa = 0, ra = 0, na = 0;
        for (size_t k = 0; k < ref.size(); k++) { double e = fabs((double)ref[k] - val[k]); mx = std::max(mx, e); pa += (double)val[k] * val[k]; ra += (double)ref[k] * ref[k]; na += e * e; }
        auto near = [](double a, double b) { return fabs(a - b) <= 1e-3 * (1 + fabs(b)); };
        if (!near(o1->max_abs_err, mx) || !near(o1->pred_vec_length, sqrt(pa)) || !near(o1->ref_vec_length, sqrt(ra)) || !near(o1->noise_vec_length, sqrt(na)))
            violation("metrics" + tag, "max error %g, lengths %g %g %g reported; %g, %g %g %g computed (axis %d)", o1->max_abs_err, o1->pred_vec_length, o1->ref_vec_length, o1->noise_vec_length, mx, sqrt(pa), sqrt(ra), sqrt(na), axis);
    } else if (T.valid && !other_shape && !long_path) violation("spurious-error" + tag, "measure_ref_to_pred fails with status %d although nothing failed", (int)s1);
    gen_plan(true);
    stack_garbage(data_seed());
    arm(true);
    guarded(who.c_str(), [&] { s2 = measure_ref_to_pred(root.c_str(), name.c_str(), pred, o2); });
    arm(false);
    common(s2, "with faults");
    if (s2 == TEST_PASSED) {
        if (s1 != TEST_PASSED) violation("fault-helps" + (tag.empty() ? rd_circumstance() : tag), "measure_ref_to_pred succeeds under faults and fails without");
        if (memcmp(o1, o2, sizeof *o1)) violation("differs" + (tag.empty() ? rd_circumstance() : tag), "metrics under memory pressure differ: noise %g instead of %g", o2->noise_vec_length, o1->noise_vec_length);
        probe(g_injected ? "compared_despite_faults" : "compared");
    } else if (s1 == TEST_PASSED && !g_injected) violation("spurious-error" + tag, "measure_ref_to_pred fails with status %d although nothing failed", (int)s2);
    mix((uint64_t)s1 * 8 + (uint64_t)s2); mix(g_injected); mix(g_ops); mix(digest(val.data(), val.size() * 4));
    nontrivial();
}
}  // namespace sim
