// MLI 3.0 (compiler / runtime interface) kernels: random cases and the host side that runs them tile by tile.
#pragma once
#include "sim.h"
#include "tensors.h"
#include "mli_types.hpp"
#include "mli_iterator.hpp"
#include "mli_kernels_factory_ref.hpp"
#include "mli_ref_runtime_api.hpp"
#include "mli_runtime_api.hpp"
#include "mli_helpers_api.hpp"
#include <memory>
#include <tuple>

namespace k3 {
using namespace sim;
namespace M = snps_arc::metaware::mli;
namespace R = snps_arc::metaware::mli::ref;
using M::NoBuffer; using M::OffsetBuffer; using M::ExecutionInterface;
typedef std::vector<uint8_t> Bytes;
template <unsigned N> using TI = M::TensorIterator<NoBuffer, N, N>;

enum Role { IN, OUT, PARAM };
struct Op {                                    // one operand of a kernel: the full tensor and its tile buffer
    const char* name; Role role; int rank = 0; uint32_t sh[5] = {1, 1, 1, 1, 1}; int32_t st[5] = {0, 0, 0, 0, 0}; int esz = 1;
    Bytes full;
    uint32_t tmax[5] = {1, 1, 1, 1, 1};        // largest tile
    size_t tbytes = 0;                         // bytes of the tile buffer
    bool early = false;                        // has to be in place before Create
    bool whole = false;                        // the buffer holds the whole tensor, tiles are at their place in it
    bool own_bst = false; int32_t bst[5] = {0, 0, 0, 0, 0};   // strides of the tile buffer, when not those of the tensor
    int32_t bs(int d) const { return own_bst ? bst[d] : st[d]; }
};
struct View { uint32_t sz[5]; int32_t of[5]; Bytes packed; };

inline size_t span(int rank, const uint32_t* sh, const int32_t* st) { size_t n = 1; for (int i = 0; i < rank; i++) n += (size_t)(sh[i] - 1) * st[i]; return n; }

struct Kern {
    std::string name;
    std::vector<Op> ops;
    uint32_t tiles = 1;
    bool together = false;                     // weights and zero points encoded together
    bool grid = true;                          // out tiles are expected on the regular grid
    uint32_t tile[6] = {1, 1, 1, 1, 1, 0};     // out tile size; last: how much smaller the first tile of axis 0 is
    std::function<void(Kern&, const std::vector<OffsetBuffer>&, Bytes&, uint32_t&)> compile;
    std::function<void(const Kern&, ExecutionInterface*, uint32_t, std::vector<View>&)> io;
    const Op& out() const { for (auto& o : ops) if (o.role == OUT) return o; abort(); }
    int out_idx() const { for (size_t i = 0; i < ops.size(); i++) if (ops[i].role == OUT) return (int)i; abort(); }
};

// A random problem; tiled kernels and the untiled one are made from the same problem.
struct Problem {
    std::string name;
    std::vector<Op> ops;                       // full tensors, data
    uint32_t tile[6] = {1, 1, 1, 1, 1, 0};     // wanted out tile; last: how much smaller the first tile of axis 0 is
    int p[24] = {0};
    std::vector<uint8_t> blob;                 // further parameters
    std::function<Kern(const Problem&, const uint32_t* tile)> make;
};

Problem gen_problem(int kind = -1);            // kind -1: any
void huge_axis(); bool huge();                  // the next problem gets a very long axis
int n_kinds();
int pick_kind();
const char* kind_name(int k);
extern const M::PlatformDescription g_pd;
}
