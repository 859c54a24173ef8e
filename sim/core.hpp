#ifndef SIM_CORE_HPP
#define SIM_CORE_HPP
#include "sim.hpp"
#include <unordered_map>
#include <set>
namespace sim {
extern Result *R;
extern u64 g_seed;
extern bool g_replay, g_verbose;
extern std::unordered_map<u64, unsigned> replay_draw;
extern std::unordered_map<u64, int> replay_sched;
extern std::set<std::pair<unsigned, unsigned>> skip_ops;
extern std::function<void()> g_on_deadlock;
extern unsigned char *g_cov;
extern size_t g_cov_n;
const i64 WALL_BASE = 1600000000;
const i64 MONO_BASE = 5000;
void set_rec_buf(u64 *b, size_t cap);
void load_preempts();
void run_main(std::function<void()> fn);
void proxy_thread_begin(const char *name);
[[noreturn]] void thread_halt();
void seal_crash();
int live_proxy_threads();
std::string threads_dump();
int *self_child_proc();
void nopreempt_add(int n);
}
#endif
