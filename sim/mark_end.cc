// Linked right behind the library: where its static state ends.
extern "C" { char sim_data_end[16] __attribute__((aligned(16))) = {1}; char sim_bss_end[16] __attribute__((aligned(16))); }
