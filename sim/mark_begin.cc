// Linked right before the library: where its static state begins (see forget() in sim.cc).
extern "C" { char sim_data_begin[16] __attribute__((aligned(16))) = {1}; char sim_bss_begin[16] __attribute__((aligned(16))); }
