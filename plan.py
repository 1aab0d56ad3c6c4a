"""Which simulators decide which property, how many runs, and what the evidence says about them."""
ASSUMPTIONS = [
    "host build of the library (no ARC DMA hardware: the data is copied by the library in mli_mov_prepare, completion is signalled in mli_mov_start)",
    "g++ 13 -O1, x86-64, sequentially consistent interleavings at basic-block granularity",
    "sampling: a clean batch of seeds is evidence, not proof",
]
MOV_REAL = "all of lib/src (data movement, helpers, private) of /repo, compiled from the working tree"
PLAN = {
    "C01": dict(targets=[("mov_up", 0.4), ("mov_rc", 0.3), ("mov_dbg", 0.3)], quick=(4000000, 60), thorough=(100000000, 1500),
        rule="One run: 1-5 simulated clients acquire blocks of random width, release in any order and do synchronous moves in between, pre-empted between calls, on a random pool, reconfigured between rounds; every outcome is compared with a small pool model and the pool is drained at the end. Non-trivial: at least two handles were live at the same time.",
        real=[MOV_REAL], stub=["client tasks and their scheduler (simulated)"]),
    "C02": dict(targets=[("mov_up", 0.4), ("mov_rc", 0.3), ("mov_dbg", 0.3)], quick=(4000000, 60), thorough=(100000000, 1500),
        rule="One run: 1-5 clients run asynchronous transfers (acquire, register, prepare, start, poll or wait, reuse, release) pre-empted at basic blocks inside the library where it blocks or polls, callbacks that start further transfers, and an observer polling foreign handles. Non-trivial: at least two live handles.",
        real=[MOV_REAL], stub=["client tasks, callbacks and their scheduler (simulated)"]),
    "C03": dict(targets=[("mov_up", 0.5), ("mov_rc", 0.25), ("mov_dbg", 0.25)], quick=(4000000, 60), thorough=(100000000, 1500),
        rule="One run: 1-4 moves of random shape, strides, type, quantisation axis, crop, padding, subsampling, permutation and destination offset, synchronous or asynchronous and interleaved, in guarded buffers; destination, descriptor and every other byte are compared with an independent model. Non-trivial: see scenario counters; every completed move counts.",
        real=[MOV_REAL], stub=["client tasks (simulated)", "memory outside the tensors: guarded arena"]),
    "C04": dict(targets=[("mov_rc", 0.6), ("mov_up", 0.2), ("mov_dbg", 0.2)], quick=(4000000, 60), thorough=(100000000, 1500),
        rule="One run: synchronous moves, a random share of them corrupted (15 kinds of invalid argument, pool exhausted), among live asynchronous handles; handles, callbacks, pool and buffers are compared with the model. Non-trivial: a failed or successful synchronous move ran while another handle was live.",
        real=[MOV_REAL], stub=["client tasks (simulated)"]),
}
K2_REAL = "all of lib/src (kernels, helpers, checks) of /repo, compiled from the working tree, in the round-up, convergent, debug and return-code builds"
K2 = [("k2_up", 0.3), ("k2_rc", 0.2), ("k2_dbg", 0.25), ("k2_conv", 0.25)]
PLAN.update({
    "C08": dict(targets=K2, quick=(4000000, 60), thorough=(100000000, 1500),
        rule="One run: 2-5 kernel or helper calls, sharing inputs, weights, tables and configurations in random ways but with separate outputs, on threads pre-empted at random basic blocks inside the library; every result is compared with the same call alone, and every other byte of memory with its value before. Non-trivial: two calls were in progress at the same time.",
        real=[K2_REAL], stub=["threads and their scheduler (simulated)"]),
    "C09": dict(targets=K2, quick=(4000000, 60), thorough=(100000000, 1500),
        rule="One run: one call, repeated with different bytes in everything the result must not depend on (previous output, memory between and around the tensors, scratch, stack garbage, addresses and strides), with guarded pages around every buffer, and in place where documented. Non-trivial: the call succeeded and produced output.",
        real=[K2_REAL], stub=["memory outside the arguments: guarded arena", "stack content"]),
    "C10": dict(targets=K2, quick=(4000000, 60), thorough=(100000000, 1500),
        rule="One run: an LSTM, GRU or RNN-dense step sequence processed whole, and again in random pieces, with other calls and scratch corruption between the pieces and pre-emption in them; outputs and state after each step are compared. Non-trivial: at least two pieces.",
        real=[K2_REAL], stub=["task splitting the sequence (simulated)"]),
    "C11": dict(targets=K2, quick=(4000000, 60), thorough=(100000000, 1500),
        rule="One run: the output of a kernel call is divided into tiles, the sub-tensors made with the library's helpers, and computed by 1-4 simulated workers in a random order, some killed in the middle of a tile and started again; the result is compared with the whole call. Non-trivial: at least two tiles.",
        real=[K2_REAL], stub=["workers, their scheduler and their crashes (simulated)"]),
    "C14": dict(targets=K2, quick=(4000000, 60), thorough=(100000000, 1500),
        rule="One run: a random valid call, checked to be accepted; in the return-code build one argument is then corrupted, the call must be refused without writing to a data buffer, and the restored call must give the same result as before. Non-trivial: the call produced output.",
        real=[K2_REAL], stub=["callers and their mistakes (simulated)"]),
})
K3_REAL = "compile-time and runtime objects, iterators, helpers and kernels of MLI 3.0 in /repo (lib/src, include), compiled from the working tree, in the round-up, convergent, debug and return-code builds"
K3 = [("k3_up", 0.3), ("k3_dbg", 0.3), ("k3_conv", 0.2), ("k3_rc", 0.2)]
PLAN.update({
    "C05": dict(targets=K3, quick=(4000000, 60), thorough=(100000000, 1500),
        rule="One run: 2-4 runtime kernel objects of random kinds, shapes and tilings, some built from the same private data in the same place, each iterating over its tiles in its own simulated task with Prefetch and repeated Issue; tasks are switched between calls and at random basic blocks inside Create, Issue and Update; reported sizes and offsets and outputs are compared with the same object running alone, and all other memory with its value before. Non-trivial: two objects were in progress at the same time.",
        real=[K3_REAL], stub=["tasks and their scheduler (simulated)", "memory: guarded arena", "the host that moves tiles between full tensors and tile buffers"]),
    "C06": dict(targets=K3, quick=(4000000, 60), thorough=(100000000, 1500),
        rule="One run: a random kernel problem (15 kinds) compiled with a random tiling and with one tile; objects and tile buffers start full of garbage in guarded memory, the simulated host moves tiles at the reported sizes and offsets, with Prefetch and repeated Issue at random places; checks that tiles stay inside tensors and buffers, every output element is produced once, nothing else is written, the output equals the untiled one and the object is back at its first tile (sometimes verified by a second pass). Non-trivial: more than one tile.",
        real=[K3_REAL], stub=["memory: guarded arena", "the host that moves tiles between full tensors and tile buffers"]),
    "C07": dict(targets=K3, quick=(4000000, 60), thorough=(100000000, 1500),
        rule="One run: a kernel is compiled, the compile-time objects are destroyed, and runtime objects are created from copies of the private data in other memory and lost after a random tile or killed at a random basic block inside a call, their memory overwritten and started again; outputs and reported tiles are compared with an undisturbed object. Also creation in too small buffers and, in builds without assertions, from private data of an unknown kind. Non-trivial: an object was lost, killed or refused.",
        real=[K3_REAL], stub=["crashes and memory relocation (simulated)", "memory: guarded arena", "the host that moves tiles"]),
})
IO = [("io_up", 1.0)]
IO_STUB = ["kernel and disk: every open, read, write, seek and close goes to a simulated disk (errors, short reads, torn and late writes, full disk, crash)", "heap: simulated allocator with guard pages and failing allocations"]
PLAN.update({
    "C12": dict(targets=IO, quick=(4000000, 45), thorough=(100000000, 1500),
        rule="One run: an IDX file of random type, rank and content is written, at once or in pieces with the header first or last, while operations fail, the disk fills up or the process dies; or a file is damaged (cut, extended, header fields changed, products that agree only modulo 2^32, garbage); then it is read at once or in pieces under further faults and short reads, into exact, larger or too small guarded buffers. Status, data, shape, type, disk and open files are compared with an independent encoder and decoder. Non-trivial: every judged run.",
        real=["examples/auxiliary/idx_file.c of /repo on glibc stdio"], stub=IO_STUB),
    "C13": dict(targets=IO, quick=(4000000, 45), thorough=(100000000, 1500),
        rule="One run: a random base (0 to 31 vectors), labels and model tensors, possibly mismatched or cut, are processed by the runner with a recording network while I/O operations and allocations fail; status, result file, inference log, reported accuracy, open files and allocations are compared with what each vector alone gives. Non-trivial: every judged run.",
        real=["examples/auxiliary/examples_aux.c, idx_file.c, tests_aux.c, tensor_transform.c and the library (argmax, helpers) of /repo on glibc stdio"], stub=IO_STUB + ["the network: a digest of the input"]),
    "C15": dict(targets=IO, quick=(4000000, 45), thorough=(100000000, 1500),
        rule="One run: 1-3 tensors of random type, rank and quantisation are loaded from IDX files, or one is compared with a reference file, first with ample memory on a healthy disk and then with failing allocations (so that the data is processed in pieces) and failing I/O; files may be missing, cut or of another type or shape, tensors too small, paths too long. Status, tensors and metrics are compared between the runs and with an independent computation. Non-trivial: every judged run.",
        real=["examples/auxiliary/tests_aux.c, idx_file.c, tensor_transform.c and the library's helpers of /repo on glibc stdio"], stub=IO_STUB),
    "C16": dict(targets=IO, quick=(4000000, 45), thorough=(100000000, 1500),
        rule="One run: an image of random size is written by the library or an independent encoder, the file possibly cut, its header changed or missing or another size requested, and read back while operations and allocations fail; image, open files and allocations are compared with the original. Non-trivial: every judged run.",
        real=["examples/example_face_detect/bmp_file_io.c of /repo on glibc stdio"], stub=IO_STUB),
})
_PURE = "pure function of its input: no schedule, clock, I/O, failure or history for a simulator to decide; generating inputs would be ordinary input testing, not deterministic simulation"
_LATER = "check not built yet"
NOT_APPLICABLE = {"C17": _PURE, "C18": _PURE, "C19": _PURE, "C20": _PURE + " (the options are fixed at build time)"}
for _p in ["C%02d" % i for i in range(1, 17)]:
    if _p not in PLAN:
        NOT_APPLICABLE[_p] = _LATER
LEVEL_NOTE = "Seeded exploration of simulated runs of the real library code: finds schedules, faults and histories that break the property and replays them exactly; passing is evidence over the sampled runs, not proof. Trusts the compiler, the simulator and the small reference model in the scenario source."
