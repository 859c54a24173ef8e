// Happens-before race detection; does something only in the "race" build.
#ifndef SIM_RACE_HPP
#define SIM_RACE_HPP
namespace sim {
#ifdef SIM_RACE
void race_thread_begin(int tid, int parent);    // calling thread runs code under test
int race_fork(int tid);                         // a thread is about to be created
void race_thread_end();
void race_join(int tid);
void race_acquire(const void *obj);
void race_release(const void *obj);
void race_forget(const void *obj);
#else
static inline void race_thread_begin(int, int) {}
static inline int race_fork(int) { return 0; }
static inline void race_thread_end() {}
static inline void race_join(int) {}
static inline void race_acquire(const void *) {}
static inline void race_release(const void *) {}
static inline void race_forget(const void *) {}
#endif
}
#endif
