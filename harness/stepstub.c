/* weak stand-in, so that the programs of the "steps" build link without the explorer */
__attribute__((weak)) void __sanitizer_cov_trace_pc(void) {}
