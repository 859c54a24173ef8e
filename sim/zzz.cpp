extern "C" __attribute__((noinline)) void sim_text_end() { asm volatile(""); }
