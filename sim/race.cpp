// The "race" build: metaproxy's code is compiled with clang's thread sanitizer
// instrumentation, but linked with this runtime instead of libtsan.  Every
// access of the code under test is checked against the vector clocks of the
// simulated threads (which advance at the simulated locks, thread creation and
// join, and atomic operations); two accesses of the same bytes by two threads,
// one a write, neither before the other, are a violation - whether or not the
// schedule at hand makes them collide.
#ifdef SIM_RACE
#include "core.hpp"
#include "race.hpp"
#include <pthread.h>
#include <sys/mman.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <malloc.h>
#include <algorithm>
#include <locale>
#include <unordered_map>
#include <vector>

namespace sim {
std::string race_func(u64 pc);
const char *race_sym(u64 pc);
void mem_hook();
#define PC ((u64) __builtin_return_address(0))
static const unsigned MAXT = 4000;
struct TS {
    int idx;
    std::vector<u64> vc;
    u64 calls[64];
    unsigned depth = 0;
    unsigned ign = 0;       // inside library code called by the simulator
};
static std::vector<TS *> ts;                    // by index
static std::unordered_map<int, TS *> by_tid;
static std::unordered_map<const void *, std::vector<u64>> objs;
extern "C" void sim_text_begin();
extern "C" void sim_text_end();
static inline bool of_sim(u64 pc)
{
    return pc >= (u64) sim_text_begin && pc < (u64) sim_text_end;
}
// Instances of templates are shared by the simulator and the code under test.
static bool library(u64 pc)
{
    static auto *known = new std::unordered_map<u64, bool>;
    auto it = known->find(pc);
    if (it != known->end())
        return it->second;
    const char *n = race_sym(pc);
    bool r = false;
    for (const char *p : { "_ZNSt", "_ZNKSt", "_ZSt", "_ZN9__gnu_cxx", "_ZNK9__gnu_cxx",
                           "_ZN5boost", "_ZNK5boost" })
        if (n && !strncmp(n, p, strlen(p)))
            r = true;
    return (*known)[pc] = r;
}
static __thread TS *me __attribute__((tls_model("initial-exec"))) = 0;
static __thread int busy __attribute__((tls_model("initial-exec"))) = 0;

// ------------------------------------------------------------- shadow
// four accesses per 8 bytes; word 0: clock << 13 | index << 1 | write,
// word 1: pc << 8 | byte mask
struct Acc { u64 ep, pm; };
struct Cell { Acc a[4]; };
static const u64 PAGE = 4096, NC = PAGE / 8;
static Cell **l1[1 << 17];
static Cell STACK_;
#define STACK (&STACK_)
static char *arena, *arena_end;
static void *zeroed(size_t n)
{
    if (!arena || arena + n > arena_end)
    {
        size_t sz = 256u << 20;
        arena = (char *) mmap(0, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE |
                              MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (arena == MAP_FAILED)
            violation("harness", "no shadow memory");
        arena_end = arena + sz;
    }
    void *p = arena;
    arena += n;
    return p;
}
static Cell *&page(u64 a)
{
    Cell **&t = l1[(a >> 30) & 0x1ffff];
    if (!t)
        t = (Cell **) zeroed(sizeof(Cell *) << 18);
    return t[(a >> 12) & 0x3ffff];
}
static Cell *cell(u64 a)
{
    Cell *&p = page(a);
    if (p == STACK)
        return 0;
    if (!p)
        p = (Cell *) zeroed(NC * sizeof(Cell));
    return p + (a % PAGE) / 8;
}
static void forget_range(u64 a, u64 n)
{
    u64 e = (a + n + 7) & ~7ull;
    a &= ~7ull;
    while (a < e)
    {
        u64 pe = std::min(e, (a | (PAGE - 1)) + 1);
        Cell **t = l1[(a >> 30) & 0x1ffff];
        Cell *p = t ? t[(a >> 12) & 0x3ffff] : 0;
        if (p && p != STACK)
            memset(p + (a % PAGE) / 8, 0, (pe - a) / 8 * sizeof(Cell));
        a = pe;
    }
}
static bool show_all()
{
    static int v = -1;
    if (v < 0)
        v = getenv("MPSIM_RACES") ? 1 : 0;
    return v;
}
static void report(u64 addr, const Acc &old, bool w, u64 pc)
{
    // filled in as needed by every thread, with the same values
    static const u64 facet = (u64) &std::use_facet<std::ctype<char>>(std::locale::classic());
    if (addr >= facet && addr < facet + sizeof(std::ctype<char>))
        return;
    busy++;
    std::string a = race_func(old.pm >> 8), b = race_func(pc), st;
    for (unsigned i = me->depth; i-- > 0 && i + 6 > me->depth;)
        if (i < 64)
            st += " <- " + race_func(me->calls[i]);
    std::string m = std::string(w ? "write" : "read") + " in " + b + st +
        " (thread " + std::to_string(thread_id()) + ") not ordered with the " +
        (old.ep & 1 ? "write" : "read") + " in " + a;
    if (show_all())
        fprintf(stderr, "RACE %p %s [%llx %llx]\n", (void *) addr, m.c_str(),
                pc, old.pm >> 8);
    else
    {
        if (b < a)
            std::swap(a, b);
        violation(("race:" + a + "|" + b).substr(0, 180).c_str(), "%s", m.c_str());
    }
    busy--;
}
static inline void one(u64 addr, unsigned mask, bool w, u64 pc)
{
    Cell *c = cell(addr);
    if (!c)
        return;
    u64 my = me->vc[me->idx];
    u64 ep = my << 13 | (u64) me->idx << 1 | w, pm = pc << 8 | mask;
    int put = -1;
    for (int i = 0; i < 4; i++)
    {
        Acc &o = c->a[i];
        if (!o.ep)
        {
            if (put < 0)
                put = i;
            break;
        }
        unsigned om = o.pm & 0xff, oi = (o.ep >> 1) & 0xfff;
        u64 oc = o.ep >> 13;
        bool ow = o.ep & 1;
        if ((int) oi == me->idx)
        {
            if (oc == my && (om & mask) == mask && ow >= w)
                return;                         // nothing new
            if ((om & ~mask) == 0 && w >= ow)
                put = i;
            continue;
        }
        bool hb = oi < me->vc.size() && oc <= me->vc[oi];
        if (!hb && (om & mask) && (ow || w))
        {
            report(addr, o, w, pc);
            o.ep = 0;
            o = Acc{ ep, pm };
            return;
        }
        if (hb && (om & ~mask) == 0 && w >= ow && put < 0)
            put = i;
    }
    if (put < 0)
        put = ((addr % PAGE) / 8 + my + me->idx) % 4;
    c->a[put] = Acc{ ep, pm };
}
static void access(u64 addr, u64 n, bool w, u64 pc)
{
    mem_hook();
    if (!me || busy || me->ign || of_sim(pc) || !in_sim())
        return;
    busy++;
    while (n)
    {
        unsigned off = addr & 7, k = (unsigned) std::min<u64>(n, 8 - off);
        one(addr & ~7ull, ((1u << k) - 1) << off, w, pc);
        addr += k;
        n -= k;
    }
    busy--;
}
// ------------------------------------------------------------- threads
static void my_stack()
{
    pthread_attr_t at;
    void *lo;
    size_t sz;
    if (pthread_getattr_np(pthread_self(), &at))
        return;
    pthread_attr_getstack(&at, &lo, &sz);
    pthread_attr_destroy(&at);
    for (u64 a = (u64) lo & ~(PAGE - 1); a < (u64) lo + sz + PAGE; a += PAGE)
        page(a) = STACK;
}
static TS *make(int tid)
{
    TS *t = new TS;
    t->idx = (int) ts.size();
    if (ts.size() >= MAXT)
        violation("harness", "too many threads for the race detector");
    ts.push_back(t);
    by_tid[tid] = t;
    t->vc.resize(t->idx + 1);
    t->vc[t->idx] = 1;
    return t;
}
static void merge(std::vector<u64> &a, const std::vector<u64> &b)
{
    if (a.size() < b.size())
        a.resize(b.size());
    for (size_t i = 0; i < b.size(); i++)
        if (b[i] > a[i])
            a[i] = b[i];
}
int race_fork(int tid)
{
    busy++;
    TS *t = make(tid);
    if (me)
    {
        merge(t->vc, me->vc);
        me->vc[me->idx]++;
    }
    busy--;
    return t->idx;
}
void race_thread_begin(int tid, int)
{
    busy++;
    auto it = by_tid.find(tid);
    TS *t = it == by_tid.end() ? make(tid) : it->second;
    my_stack();
    busy--;
    me = t;
}
void race_thread_end() { me = 0; }
void race_join(int tid)
{
    if (!me)
        return;
    busy++;
    auto it = by_tid.find(tid);
    if (it != by_tid.end())
        merge(me->vc, it->second->vc);
    busy--;
}
void race_acquire(const void *o)
{
    if (!me)
        return;
    busy++;
    auto it = objs.find(o);
    if (it != objs.end())
        merge(me->vc, it->second);
    busy--;
}
void race_release(const void *o)
{
    if (!me)
        return;
    busy++;
    merge(objs[o], me->vc);
    me->vc[me->idx]++;
    busy--;
}
void race_forget(const void *o)
{
    busy++;
    objs.erase(o);
    busy--;
}
}
using namespace sim;
// ------------------------------------------------------------- allocation
extern "C" {
void *__libc_malloc(size_t);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);
// New memory has the contents that the address sanitizer gives it: libyaz looks
// for the end of a truncated message behind it.
static void fill(void *p, size_t from, size_t n)
{
    if (n > from)
        memset((char *) p + from, 190, std::min<size_t>(n - from, 100000));
}
static const size_t MOST = 256u << 20;
void *malloc(size_t n)
{
    void *p = n > MOST ? 0 : __libc_malloc(n);
    if (p)
        fill(p, 0, n);
    if (p && me)
        forget_range((u64) p, n);
    return p;
}
void *calloc(size_t a, size_t b)
{
    void *p = __libc_calloc(a, b);
    if (p && me)
        forget_range((u64) p, a * b);
    return p;
}
void *realloc(void *o, size_t n)
{
    size_t old = o ? malloc_usable_size(o) : 0;
    void *p = n > MOST ? 0 : __libc_realloc(o, n);
    if (p)
        fill(p, old, n);
    if (p && p != o && me)
        forget_range((u64) p, n);
    return p;
}
void *memalign(size_t al, size_t n)
{
    void *p = __libc_memalign(al, n);
    if (p)
        fill(p, 0, n);
    if (p && me)
        forget_range((u64) p, n);
    return p;
}
void *aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void **r, size_t al, size_t n)
{
    void *p = memalign(al, n);
    if (!p)
        return ENOMEM;
    *r = p;
    return 0;
}
// ------------------------------------------------------------- accesses
#define RW(n) \
void __tsan_read##n(void *p) { access((u64) p, n, false, PC); } \
void __tsan_write##n(void *p) { access((u64) p, n, true, PC); } \
void __tsan_unaligned_read##n(void *p) { access((u64) p, n, false, PC); } \
void __tsan_unaligned_write##n(void *p) { access((u64) p, n, true, PC); } \
void __tsan_read_write##n(void *p) { access((u64) p, n, true, PC); } \
void __tsan_unaligned_read_write##n(void *p) { access((u64) p, n, true, PC); } \
void __tsan_volatile_read##n(void *p) { access((u64) p, n, false, PC); } \
void __tsan_volatile_write##n(void *p) { access((u64) p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { access((u64) p, n, false, PC); }
void __tsan_write_range(void *p, size_t n) { access((u64) p, n, true, PC); }
void __tsan_vptr_update(void **p, void *v)
{
    if (*p != v)
        access((u64) p, 8, true, PC);
}
void __tsan_vptr_read(void **p) { access((u64) p, 8, false, PC); }
void __tsan_init(void) {}
void __tsan_func_entry(void *pc)
{
    mem_hook();
    if (me)
    {
        if (me->ign || (of_sim((u64) pc) && library(PC)))
        {
            me->ign++;
            return;
        }
        if (me->depth < 64)
            me->calls[me->depth] = (u64) pc;
        me->depth++;
    }
}
void __tsan_func_exit(void)
{
    if (!me)
        return;
    if (me->ign)
        me->ign--;
    else if (me->depth)
        me->depth--;
}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
void *__tsan_memcpy(void *d, const void *s, size_t n)
{
    if (n)
        access((u64) s, n, false, PC), access((u64) d, n, true, PC);
    return memcpy(d, s, n);
}
void *__tsan_memmove(void *d, const void *s, size_t n)
{
    if (n)
        access((u64) s, n, false, PC), access((u64) d, n, true, PC);
    return memmove(d, s, n);
}
void *__tsan_memset(void *d, int c, size_t n)
{
    if (n)
        access((u64) d, n, true, PC);
    return memset(d, c, n);
}
// Atomic operations order what is before them with what comes after an
// operation that sees them; the memory order asked for is not looked at.
static inline void at_pre(const volatile void *p) { mem_hook(); race_acquire((const void *) p); }
static inline void at_post(const volatile void *p) { race_release((const void *) p); }
#define AT(n, T) \
T __tsan_atomic##n##_load(const volatile T *p, int) { at_pre(p); return __atomic_load_n(p, 5); } \
void __tsan_atomic##n##_store(volatile T *p, T v, int) { mem_hook(); at_post(p); __atomic_store_n(p, v, 5); } \
T __tsan_atomic##n##_exchange(volatile T *p, T v, int) { at_pre(p); at_post(p); return __atomic_exchange_n(p, v, 5); } \
T __tsan_atomic##n##_fetch_add(volatile T *p, T v, int) { at_pre(p); at_post(p); return __atomic_fetch_add(p, v, 5); } \
T __tsan_atomic##n##_fetch_sub(volatile T *p, T v, int) { at_pre(p); at_post(p); return __atomic_fetch_sub(p, v, 5); } \
T __tsan_atomic##n##_fetch_and(volatile T *p, T v, int) { at_pre(p); at_post(p); return __atomic_fetch_and(p, v, 5); } \
T __tsan_atomic##n##_fetch_or(volatile T *p, T v, int) { at_pre(p); at_post(p); return __atomic_fetch_or(p, v, 5); } \
T __tsan_atomic##n##_fetch_xor(volatile T *p, T v, int) { at_pre(p); at_post(p); return __atomic_fetch_xor(p, v, 5); } \
T __tsan_atomic##n##_fetch_nand(volatile T *p, T v, int) { at_pre(p); at_post(p); return __atomic_fetch_nand(p, v, 5); } \
int __tsan_atomic##n##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { at_pre(p); at_post(p); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); } \
int __tsan_atomic##n##_compare_exchange_weak(volatile T *p, T *e, T v, int, int) { at_pre(p); at_post(p); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); } \
T __tsan_atomic##n##_compare_exchange_val(volatile T *p, T e, T v, int, int) { at_pre(p); at_post(p); __atomic_compare_exchange_n(p, &e, v, 0, 5, 5); return e; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned) AT(64, unsigned long long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
// The parts of red-black trees and lists that are in libstdc++.
void __real__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool, void *, void *, void *);
void __wrap__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool l, void *x, void *p, void *h)
{
    access((u64) h, 32, true, PC);
    access((u64) p + 8, 24, true, PC);
    access((u64) x, 32, true, PC);
    __real__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(l, x, p, h);
}
void *__real__ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(void *, void *);
void *__wrap__ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(void *z, void *h)
{
    access((u64) h, 32, true, PC);
    access((u64) z, 32, true, PC);
    return __real__ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(z, h);
}
void __real__ZNSt8__detail15_List_node_base7_M_hookEPS0_(void *, void *);
void __wrap__ZNSt8__detail15_List_node_base7_M_hookEPS0_(void *t, void *pos)
{
    access((u64) pos, 16, true, PC);
    access((u64) t, 16, true, PC);
    __real__ZNSt8__detail15_List_node_base7_M_hookEPS0_(t, pos);
}
void __real__ZNSt8__detail15_List_node_base9_M_unhookEv(void *);
void __wrap__ZNSt8__detail15_List_node_base9_M_unhookEv(void *t)
{
    access((u64) t, 16, true, PC);
    access(*(u64 *) t + 8, 8, true, PC);
    access(((u64 *) t)[1], 8, true, PC);
    __real__ZNSt8__detail15_List_node_base9_M_unhookEv(t);
}
}
#endif
