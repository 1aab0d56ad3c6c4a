#!/usr/bin/env python3
# Source of properties.jsonl (kept as a script so that the long strings stay readable).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

MOV=["lib/src/move/mli_mov_api.cc","lib/src/move/mli_mov_decl.h","include/api/mli_mov_api.h"]
p("C01","DMA channels are handed out exclusively, inside the pool, and never lost",
  "After mli_mov_set_num_dma_ch(offset, n), every successful mli_mov_acquire_handle(k) gives the caller k adjacent channels that lie inside [offset, offset+n) and belong to no other live handle. It succeeds exactly when such a block of k free channels exists and otherwise returns a non-OK status without changing the pool or the handle. mli_mov_release_handle returns exactly the handle's channels to the pool (a further release of the same handle returns nothing), so no sequence of acquire, move, failure and release ever loses or duplicates a channel.",
  ["histories","schedules","fault_sequences"],
  "every sequence of pool configuration, acquire(k), move, failed acquire, release and re-configuration (while no handle is live) by any number of interleaved clients",
  "The repository has no test that acquires a handle explicitly: all tests go through default-pool synchronous moves, so no history with more than one live handle, exhaustion, fragmentation or pool re-configuration is ever executed.",
  MOV,[("first-fit block scan","mli_mov_acquire_handle"),("release marks channels available","mli_mov_release_handle"),("pool reset","mli_mov_set_num_dma_ch")],
  [("dma_pool","base, size and per-channel status of the pool","lib/src/move/mli_mov_api.cc"),("mli_mov_handle_t.dma_ch/num_ch","channels owned by a handle","include/api/mli_mov_api.h")],
  ["return status and handle contents of acquire/release"])
p("C02","Asynchronous move: completion and callback protocol",
  "For each handle, mli_mov_isdone is false from acquire until that handle's transfer has been started and completed, and true afterwards until the handle is prepared again or released; mli_mov_wait returns. A callback registered on a handle before mli_mov_start is called exactly once per started transfer, with the cookie registered on that handle, when the destination data and tensor fields are already in place and isdone is true. A callback is never called for another handle's transfer, after its handle was released, or for a synchronous move, however operations of several handles interleave, including from inside callbacks.",
  ["schedules","histories"],
  "every interleaving of acquire / registercallback / prepare / start / isdone / wait / release over up to 16 live handles, including transfers prepared and started from callbacks, handle reuse for several transfers and channel reuse by later handles",
  "No test registers a callback, polls a handle or has two transfers in flight; the only exercised schedule is acquire-prepare-start-wait-release inside mli_mov_tensor_sync.",
  MOV,[("handle state machine","mli_mov_prepare/mli_mov_start/mli_mov_isdone"),("callback table","mli_mov_registercallback")],
  [("callbacktable","callback and cookie per channel","lib/src/move/mli_mov_api.cc"),("mli_mov_handle_t.state","phase of the transfer","include/api/mli_mov_api.h")],
  ["callback invocations, isdone results, destination contents at callback time"])
p("C03","Data movement delivers exactly the configured transformation and nothing else",
  "For any valid combination of padding, crop, subsampling, permutation and destination offset / strides, rank 1..4, the element types the kernels use (FX8, FX16, SA8, SA32) and all source / destination memory strides, a move (synchronous or asynchronous, alone or interleaved with other moves) leaves in the destination elements it addresses exactly the values given by applying pad, crop, subsample, permute and write-at-offset in that order, and sets the destination's rank, shape, strides, element type and (per-axis) quantisation parameters accordingly. Bytes of the destination buffer that no destination element covers, the source data, the source tensor descriptor and the configuration are unchanged.",
  ["inputs","schedules","histories"],
  "all shapes, strides, configurations and element types, with other moves (to disjoint parts of the same buffers) interleaved at arbitrary points of the copy, and sources that change only after completion",
  "The data-movement tests run a fixed list of tensors, one transformation at a time, into a freshly filled buffer, strictly sequentially; combinations (offset with dst_offset, stride with padding, per-axis parameters with crop) and concurrent transfers never occur.",
  MOV+["lib/src/move/impl/mli_mov_ref.h","doc/documents/data_movement/data_movement.rst"],[("single 1-D transfer shortcut","mli_mov_prepare"),("four nested copy loops","mli_mov_basic_operation"),("configuration helpers","mli_mov_cfg_for_*")],
  [],["destination buffer and tensor fields, bytes around them"])
p("C04","A synchronous or failed move leaves no trace in the shared move state",
  "mli_mov_tensor_sync, whether it succeeds or fails, leaves the channel pool and every live asynchronous handle (its channels, phase, completion state and registered callback) exactly as they were, does not need a free channel on a platform without DMA, and returns to its caller in a bounded number of steps. A move rejected by parameter checking returns the failing check's status, writes nothing to the destination buffer, and leaves no channel acquired.",
  ["histories","fault_sequences","schedules"],
  "every history of live asynchronous handles and every point at which a synchronous move (valid, or with one argument corrupted) is inserted, with the pool free, partly used or exhausted",
  "Tests never mix synchronous moves with live handles and never pass a rejected descriptor (in the debug configuration it would abort the test).",
  MOV+["lib/src/private/src/mli_check.cc","lib/src/private/mli_check.h"],[("release on failure","mli_mov_tensor_sync"),("parameter checks","mli_chk_data_movement")],
  [("dma_pool / callbacktable","shared state","lib/src/move/mli_mov_api.cc")],["status, pool and handles before and after"])

K3=["lib/src/pal","include/api/mli_ref_runtime_api.hpp","include/api/mli_ref_compiler_api.hpp","include/mli_iterator.hpp"]
K3=["include/mli_iterator.hpp","include/mli_types.hpp","include/api/mli_ref_runtime_api.hpp","include/api/mli_ref_compiler_api.hpp","lib/src/kernels","lib/src/move/mli_mov_runtime.cc","lib/src/move/mli_move_broadcast_runtime.cc"]
p("C05","MLI 3.0 runtime kernel objects are isolated from each other",
  "When several MLI 3.0 runtime kernel objects (of the same or different kinds) are live at once, any interleaving of their Create, Issue, Prefetch and Update calls, including preemption in the middle of an Issue, gives each of them exactly the outputs, tile sizes and tile offsets it produces when it runs alone. No object writes outside its own object memory and its own output buffers.",
  ["schedules","histories"],
  "every interleaving, at call granularity and at basic-block granularity inside the calls, of 2..4 kernel objects drawn from all kinds that the runtime factory supports",
  "Each 3.0 test creates one kernel object, runs it to completion and destroys it; no second object is ever live and nothing runs between its calls.",
  K3,[("all state in the object","*_runtime.cc Issue/Update"),("placement construction","mli_runtime.cc ExecutionInterface::Create")],
  [("tile iterators","position of the next tile","include/mli_iterator.hpp")],["output buffers, GetIOSizesAndOffsets results, canaries"])
p("C06","MLI 3.0 tiled execution equals untiled execution, for every tiling",
  "For every MLI 3.0 kernel and every valid way of cutting its output into tiles, iterating Issue and Update over all tiles (copying each tile's inputs and output at the sizes and offsets the kernel object reports) produces the same full output as a single untiled Issue, writes every output element exactly once, never addresses memory outside the full tensors or the tile buffers, and after the last Update the object is back at its first tile. The buffer sizes and encoded-parameter sizes the compile-time object asks for suffice for its tensors and parameters. Prefetch and repeated Issue on the same tile change nothing, and kernels made with the deprecated constructors, attached with tensors instead of buffers, or given parameters encoded by the compile-time object behave alike.",
  ["schedules","inputs","histories"],
  "all tile shapes (including ragged last tiles and tiles that start inside padding), layouts, strides, dilations, paddings and kernel sizes, and all placements of Prefetch and repeated Issue among the calls",
  "Existing 3.0 tests use a handful of fixed tile sizes, mostly a single tile, and compare checksums; which tile boundaries are reached depends on shape, stride and padding together.",
  K3,[("tile iteration","TensorIterator::Next / SetMemoryStrides / GetSubTensor"),("per-tile padding","UpdateTilePaddings / *_runtime.cc Update"),("input iterator derived from output","mli_service_functions.hpp / *_CS")],
  [("tile position","per-dimension tile index and offset","include/mli_iterator.hpp")],["full output against untiled run and against an independent reference model"])
p("C07","MLI 3.0 kernels restart from their serialised state alone",
  "A runtime kernel object re-created from a copy of the private data produced at compile time, with compile-time objects destroyed, memory bases relocated, object memory and unused buffers holding arbitrary bytes, produces the same tiles and outputs as the original, whatever tile the previous incarnation had reached when it was lost; once it is created, neither the private data nor the array of memory bases is needed any more. Creating an object in a buffer smaller than its declared object size, or, where debug assertions are off, from private data of an unknown kernel kind, returns null and writes nothing.",
  ["crash_points","configurations","fault_sequences"],
  "all crash points between runtime calls (only private data, encoded parameters and input tensors survive), all relocations of the memory bases, all too-small buffer sizes, all kernel kinds of the runtime factory that the reference kernels factory can compile",
  "Tests keep compile-time and runtime objects alive in the same memory for the whole run and never re-create an object, move a memory base or pass a wrong size.",
  K3+["lib/src/private/src/mli_runtime.cc","lib/src/private/mli_ref_private_types.hpp"],[("private-data serialisation","*_CS::GetKernelPrivateData"),("size and kind checks","ExecutionInterface::Create")],
  [("kernel private data","all that survives from compile time","lib/src/private/mli_ref_private_types.hpp")],["outputs, returned pointers, canaries"])

K2=["include/api/mli_kernels_api.h","lib/src/kernels","lib/src/bricks","lib/src/private"]
p("C08","MLI 2.0 kernels and helpers are re-entrant",
  "Any number of MLI 2.0 kernel, bilinear resize, data-conversion and helper calls on disjoint output buffers, preempted by each other at arbitrary points of their execution, each return the same status and leave the same output as when executed alone with nothing interleaved. Sharing input tensors, weights, look-up tables and configurations between concurrent calls does not matter.",
  ["schedules","inputs"],
  "all interleavings at basic-block granularity of 2..6 concurrent kernel calls of all kinds, sharing read-only operands",
  "All tests are single-threaded and run one kernel at a time; whether a kernel keeps intermediate state in a static object, a shared table or an input descriptor is invisible to them.",
  K2,[("stack-only intermediates","lib/src/kernels, lib/src/bricks"),("read-only look-up tables","lib/src/private/src/mli_prv_activation_lut.cc")],
  [],["output tensors and status of each call against its solo run"])
p("C09","Kernels write only their output and depend only on their inputs",
  "An MLI 2.0 kernel or bilinear resize call changes only the elements that its output tensor addresses (never the gaps between them, neighbouring memory, inputs, weights, configurations or input descriptors; scratch arguments excepted), and the values it writes depend only on the values of its documented inputs. Stale contents of the output buffer, of scratch memory, of the stack, of bytes next to the inputs, and the history of earlier calls have no influence, so repeating a call repeats the result. Where the documentation allows in-place computation, computing in place gives the same result.",
  ["histories","inputs","schedules"],
  "all preceding call histories and memory contents, over ranks, strided (sub-tensor) outputs and inputs, shapes, types and configurations of all kernels",
  "Tests check a few strided outputs and always start from the same process image; dependence on uninitialised or stale memory, reads past an input, or writes into stride gaps show only for other memory contents, layouts or orders of calls.",
  K2,[("destination descriptor set-up","mli_krn_* wrappers"),("loops bounded by shape, steps by mem_stride","lib/src/kernels/*/impl, lib/src/bricks")],
  [],["every byte of a simulated memory arena before and after each call"])
p("C10","Recurrent kernels can be checkpointed and resumed at any time step",
  "For LSTM and GRU cells and the rnn-dense kernel, in both processing directions and output modes, running T time steps in one call gives the same hidden / cell state and the same per-step outputs as running any partition of them in consecutive calls, with the state tensors saved, every other buffer lost or overwritten, and the state restored between calls.",
  ["crash_points","histories","inputs"],
  "all partitions of the sequence, all crash points between the chunks, all shapes, activations, directions, output modes and supported types",
  "The tests run each recurrent kernel once per vector on a fixed sequence length and never continue from a saved state.",
  ["lib/src/kernels/common","lib/src/bricks","include/api/mli_kernels_api.h"],[("in-place state tensors","mli_krn_lstm_cell / mli_krn_gru_cell")],
  [("prev_out / cell tensors","recurrent state carried between calls","include/api/mli_kernels_api.h")],["state and output tensors"])
p("C11","Concurrent workers on slices of one output equal one whole call",
  "When the output of an element-wise, activation, pooling, convolution, resize or fully-connected kernel is divided among workers that each compute one sub-tensor of it (with the corresponding input or weight slice) straight into one shared buffer through memory strides, the assembled output equals that of a single whole call, for every division and every interleaving of the workers, and no worker disturbs another's elements.",
  ["schedules","inputs","histories"],
  "all divisions along channel, row or column dimensions, all worker orders and preemptive interleavings, workers that crash and are re-run",
  "Tests compute each output with one call; sub-tensor composition and parallel writers into one buffer are never exercised.",
  K2,[("mem_stride handling","lib/src/private/mli_prv_tensor.h"),("sub-tensor creation","mli_hlp_create_subtensor")],
  [],["assembled buffer against the whole-call buffer"])
EX=["examples/auxiliary/idx_file.c","examples/auxiliary/idx_file.h"]
p("C12","IDX files: no fault or corruption is ever reported as success",
  "If writing an IDX file reports success then the file on disk holds exactly the given type, shape and data, and reading it back returns them, even when the disk fills up, writes fail late, or reads are short. If a file is missing, truncated or extended, or its header disagrees with its content (bad magic number, unknown type, dimensions whose product does not match the size, also modulo 2^32), or an open, seek, read, write or closing of a written file fails, the operation returns an error; it never returns success with data other than what a fault-free run gives, never writes past the caller's buffers, never crashes and never leaves a file open.",
  ["fault_sequences","inputs","crash_points"],
  "all positions and kinds of I/O fault (open, seek, short read, EIO, ENOSPC at write or at close, crash with torn file) and all single-field corruptions of a valid file, for all types and shapes, complete and piecewise reading and writing",
  "No test of the repository exercises the file code except reading intact files on a healthy disk.",
  EX,[("header/size consistency check","idx_file_check_and_get_info"),("count checks on fread/fwrite","idx_file_read_data, idx_file_write*")],
  [],["return codes, bytes on the simulated disk, caller buffers, open-file table"])
p("C13","Batch inference runs report success only for complete, ordered results",
  "When the example runner processes an IDX base it returns TEST_PASSED only if the output file exists on disk with one result per input vector, in input order, each equal to the inference of that vector alone (or, in accuracy mode, only if every vector was inferred exactly once against its own label). Under any I/O or allocation failure, or mismatched or tiny bases, it returns an error status or a correct result, terminates, does not crash, and leaks neither memory nor open files.",
  ["fault_sequences","inputs"],
  "all base sizes from 0 vectors up, all fault points in its I/O and allocations, all mismatches of shapes and label counts",
  "The runner is only executed by example programs on shipped bases, on a healthy disk, with ample memory; it is not part of the test suite.",
  ["examples/auxiliary/examples_aux.c","examples/auxiliary/idx_file.c"],[("run loop","model_run_idx_base_to_idx_out, model_run_acc_on_idx_base, model_run_single_in")],
  [],["status, simulated disk, inference call log, allocation and file tables"])
p("C14","Checked builds reject every invalid descriptor before touching data",
  "In a build with return-code checks, a call whose arguments violate a documented requirement (null pointer, wrong rank or type, shape mismatch, buffer capacity too small for the result, axis or kernel size out of range) returns a status other than MLI_STATUS_OK and has written nothing to any data buffer; and it never rejects a valid call. The call has no lasting effect: subsequent valid calls behave as if it had not been made.",
  ["fault_sequences","inputs","histories"],
  "all single-field corruptions of valid argument sets for all checked MLI 2.0 kernels, helpers and data moves, injected at any point of a history of valid calls",
  "The test configurations either disable the checks or abort on failure; no test passes an invalid descriptor and looks at status and memory.",
  ["lib/src/private/src/mli_check.cc","lib/src/private/mli_check.h","lib/src/private/mli_debug.h","lib/src/kernels"],[("mli_chk_* functions","lib/src/private/src/mli_check.cc"),("MLI_CHECK / MLI_CHECK_STATUS","lib/src/private/mli_debug.h")],
  [],["status, all arena bytes, following calls"])
p("C15","Tensor loading and comparison do not depend on how much memory there is",
  "Loading tensors from IDX files and comparing a tensor with a reference file either fails with an error status or gives the same tensors and the same metrics as with ample memory and a healthy disk, no matter which allocations or I/O operations fail and in how many pieces the data therefore has to be processed. No failure leads to a crash, a leak of memory or file handles, use of an uninitialised handle, or writes beyond the tensor's capacity.",
  ["fault_sequences","inputs"],
  "all subsets of failing allocations and I/O operations, all tensor types and sizes around the piece size",
  "The loader and comparator run only with shipped small files and enough memory; the piecewise path and the error exits are never executed.",
  ["examples/auxiliary/tests_aux.c","examples/auxiliary/idx_file.c"],[("halving allocation loop and piecewise processing","load_tensors_from_idx_files, measure_ref_to_pred")],
  [],["status, tensors, metrics, allocation and file tables"])
p("C16","BMP input is rejected unless the complete image was read",
  "For uncompressed 24-bit BMP files as bmp_rgb_write produces them (rows without padding bytes): reading returns an image only if the complete headers and all pixel data of an image of the requested size were read, and then it is exactly the stored picture; truncation, read errors, failed allocation or a wrong header give a null result without leak or crash. An image written on a healthy disk reads back unchanged.",
  ["fault_sequences","inputs"],
  "all truncation points, read-error points, failed allocations and header corruptions, all image sizes",
  "The only image ever read is the intact one shipped with the example.",
  ["examples/example_face_detect/bmp_file_io.c"],[("header check and pixel loop","bmp_rgb_read")],[],["returned image, allocation and file tables"])
# not applicable to this technique
NA=[("C17","Kernel arithmetic matches the specification","Every kernel computes, for every input, the value that the documentation's formula gives under the documented rounding and saturation rules.",["inputs","configurations"],"all input values, shapes and configurations","Tests compare a few vectors with float references within tolerances.",["lib/src/kernels","lib/src/bricks","doc/documents"]),
("C18","Tensor quantisation round-trips within half a step","Converting float data to a quantised tensor and back gives values within half a quantisation step (or the saturation bound), for all formats and per-axis parameters.",["inputs"],"all float values and quantisation parameters","A few vectors are converted in tests.",["lib/src/helpers","include/api/mli_helpers_api.h"]),
("C19","Tensor arithmetic helpers are exact","Count, size, shape, offset and sub-tensor helpers agree with the mathematical definition for every valid tensor descriptor.",["inputs"],"all descriptors","Tests sample a few descriptors.",["lib/src/private/mli_prv_tensor.h","include/api/mli_helpers_api.h"]),
("C20","Rounding modes and accumulator options differ only as documented","The build options for rounding, accumulator width and pooling multiplication change results only within the documented bounds.",["configurations","inputs"],"all inputs, pairs of build options","Each configuration is tested on its own vectors.",["lib/src/private","include/mli_config.h"])]
for i,t,s,o,q,w,f in NA: p(i,t,s,o,q,w,f,[("pure functions","see files")])
with open("/verif/properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
