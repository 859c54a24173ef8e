// First and last (zzz.cpp) of the simulator's objects, in link order.
extern "C" __attribute__((noinline)) void sim_text_begin() { asm volatile(""); }
