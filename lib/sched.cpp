#include "sched.hpp"
#include <algorithm>
#include <array>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <execinfo.h>
#include <map>
#include <memory>
#include <pthread.h>
#include <semaphore.h>
#include <set>
#include <thread>
#include <unordered_map>

namespace sched
{
namespace
{
constexpr unsigned MAXT = 48;
using vclock = std::array<std::uint32_t, MAXT>;
struct thr {
    sem_t sem;
    vclock vc{};
    enum { RUN, LOCK, JOIN, COND, DONE } st = RUN;
    void *on = nullptr;
    int join = -1;
    std::unique_ptr<std::thread> t;
};
struct lck {
    int owner = -1; // exclusive
    unsigned readers = 0;
    vclock vc{};
};
struct acc {
    std::uint8_t tid, mask;
    bool wr, at;
    std::uint32_t clk;
    void *pc;
};
struct cell {
    acc a[12];
    unsigned n = 0;
};
struct engine {
    std::vector<std::unique_ptr<thr>> th;
    int cur = 0;
    std::unordered_map<void *, lck> locks;
    std::unordered_map<void *, vclock> sync;
    std::unordered_map<std::uintptr_t, cell> shadow;
    std::vector<unsigned> choice, arity, cost; // decisions of the current run
    std::size_t pos = 0;
    unsigned bound = 0, used = 0, spin = 0;
    std::uint64_t points = 0, accesses = 0;
    unsigned alive = 0;
    bool running = false;
    std::set<std::pair<void *, void *>> seen;
    std::vector<std::string> races;
};
engine *E = nullptr;
thread_local int tid = -1;
thread_local int in_rt = 0;
thread_local bool in_shadow = false; // working on the shadow map (which allocates)
struct guard {
    guard()
    {
        ++in_rt;
    }
    ~guard()
    {
        --in_rt;
    }
};
inline bool mine()
{
    return tid >= 0 && in_rt == 0 && E && E->running;
}
void join_vc(vclock &a, const vclock &b)
{
    for (unsigned i = 0; i < MAXT; ++i) a[i] = std::max(a[i], b[i]);
}
bool enabled(int i)
{
    auto &t = *E->th[i];
    switch (t.st) {
        case thr::RUN: return true;
        case thr::LOCK: {
            auto &l = E->locks[t.on];
            return l.owner < 0 && (t.join == 1 ? true : l.readers == 0u);
        }
        case thr::JOIN: return E->th[t.join]->st == thr::DONE;
        default: return false;
    }
}
std::string describe()
{
    std::string s = "[";
    for (std::size_t i = 0; i < E->choice.size() && i < E->pos; ++i) s += (i ? "," : "") + std::to_string(E->choice[i]);
    return s + "]";
}
// pick the next thread to run and hand over; returns when the caller is scheduled again (unless it is done)
void reschedule(bool forced)
{
    const int me = tid;
    ++E->points;
    std::vector<int> en;
    const bool self_ok = enabled(me);
    if (self_ok) en.push_back(me);
    for (int i = 0; i < static_cast<int>(E->th.size()); ++i)
        if (i != me && enabled(i)) en.push_back(i);
    if (en.empty()) {
        bool all = true;
        for (auto &t : E->th) all = all && t->st == thr::DONE;
        if (all) return;
        std::string d = "deadlock in schedule " + describe();
        if (on_deadlock) on_deadlock(d);
        std::fprintf(stderr, "%s\n", d.c_str());
        std::_Exit(3);
    }
    int next = en[0];
    bool spinning = false;
    if (self_ok && en.size() > 1u && !forced) {
        if (++E->spin > 200u) { // a busy loop: let the others run
            spinning = true;
            E->spin = 0;
            next = en[1 + E->points % (en.size() - 1u)];
        }
    } else {
        E->spin = 0;
    }
    if (en.size() > 1u && !spinning) {
        const unsigned c = (self_ok && !forced) ? 1u : 0u;
        unsigned k = (c && E->used >= E->bound) ? 1u : static_cast<unsigned>(en.size());
        if (k > 1u) {
            if (E->pos == E->choice.size()) {
                E->choice.push_back(0u);
                E->arity.push_back(k);
            }
            if (E->arity[E->pos] != k) {
                std::fprintf(stderr, "sched: divergence while replaying a schedule\n");
                std::_Exit(4);
            }
            unsigned ch = E->choice[E->pos++];
            next = en[ch];
            if (ch && c) ++E->used;
        }
    }
    if (next == me) return;
    E->spin = 0;
    E->cur = next;
    thr *self = E->th[me].get();
    const bool done = self->st == thr::DONE;
    sem_post(&E->th[next]->sem); // from here on only the next thread touches the engine
    if (done) return;
    while (sem_wait(&self->sem) != 0) {
    }
}
std::string where(void *pc)
{
    char **s = backtrace_symbols(&pc, 1);
    std::string r = s ? s[0] : "?";
    std::free(s);
    auto p = r.rfind('/');
    return p == std::string::npos ? r : r.substr(p + 1);
}
void access(void *addr, unsigned size, bool wr, void *pc, bool at = false)
{
    if (!mine() || E->alive < 2u) return;
    guard g;
    in_shadow = true;
    ++E->accesses;
    auto p = reinterpret_cast<std::uintptr_t>(addr);
    auto &vc = E->th[tid]->vc;
    while (size) {
        std::uintptr_t base = p & ~std::uintptr_t(7);
        unsigned off = static_cast<unsigned>(p - base), len = std::min(size, 8u - off);
        auto mask = static_cast<std::uint8_t>(((1u << len) - 1u) << off);
        auto &c = E->shadow[base];
        unsigned slot = c.n;
        for (unsigned i = 0; i < c.n; ++i) {
            auto &a = c.a[i];
            if (a.tid == tid) {
                if (a.mask == mask && a.wr == wr && a.at == at) slot = i;
                continue;
            }
            if ((a.mask & mask) && (a.wr || wr) && !(a.at && at) && a.clk > vc[a.tid]) {
                auto k = std::minmax(a.pc, pc);
                if (E->seen.insert({k.first, k.second}).second && E->races.size() < 20u) {
                    E->races.push_back(std::string(wr ? "write" : "read") + " at " + where(pc) + " races with " + (a.wr ? "write" : "read") + " at " + where(a.pc) + " in schedule " + describe());
                }
            }
        }
        acc n{static_cast<std::uint8_t>(tid), mask, wr, at, vc[tid], pc};
        if (slot < 12u) {
            c.a[slot] = n;
            if (slot == c.n) ++c.n;
        } else {
            c.a[E->accesses % 12u] = n;
        }
        p += len;
        size -= len;
    }
    in_shadow = false;
}
void forget(void *p, std::size_t n)
{
    // (also memory the runtime itself allocates for a thread: the thread's callable is read by instrumented code)
    if (tid < 0 || in_shadow || !E || !E->running || E->shadow.empty()) return;
    in_shadow = true;
    auto b = reinterpret_cast<std::uintptr_t>(p) & ~std::uintptr_t(7);
    for (auto e = reinterpret_cast<std::uintptr_t>(p) + n; b < e; b += 8) E->shadow.erase(b);
    in_shadow = false;
}
void acquire(void *a)
{
    join_vc(E->th[tid]->vc, E->sync[a]);
}
void release(void *a)
{
    join_vc(E->sync[a], E->th[tid]->vc);
    ++E->th[tid]->vc[tid];
}
void do_lock(void *m, bool shared)
{
    E->th[tid]->st = thr::RUN;
    reschedule(false);
    auto &t = *E->th[tid];
    t.st = thr::LOCK;
    t.on = m;
    t.join = shared ? 1 : 0;
    if (!enabled(tid)) reschedule(false);
    t.st = thr::RUN;
    t.on = nullptr;
    auto &l = E->locks[m];
    if (shared) ++l.readers;
    else l.owner = tid;
    join_vc(t.vc, l.vc);
}
bool do_try(void *m, bool shared)
{
    reschedule(false);
    auto &l = E->locks[m];
    if (l.owner >= 0 || (!shared && l.readers)) {
        return false;
    }
    if (shared) ++l.readers;
    else l.owner = tid;
    join_vc(E->th[tid]->vc, l.vc);
    return true;
}
void do_unlock(void *m)
{
    auto &l = E->locks[m];
    join_vc(l.vc, E->th[tid]->vc);
    ++E->th[tid]->vc[tid];
    if (l.owner >= 0) l.owner = -1;
    else if (l.readers) --l.readers;
    reschedule(false);
}
} // namespace

std::function<void(const std::string &)> on_deadlock;

bool active()
{
    return mine();
}
unsigned self()
{
    return static_cast<unsigned>(tid);
}
void point()
{
    if (!mine()) return;
    guard g;
    reschedule(false);
}
void lock(void *m)
{
    if (!mine()) return;
    guard g;
    do_lock(m, false);
}
bool try_lock(void *m)
{
    if (!mine()) return true;
    guard g;
    return do_try(m, false);
}
void unlock(void *m)
{
    if (!mine()) return;
    guard g;
    do_unlock(m);
}
int spawn(const std::function<void()> &f)
{
    guard g;
    const int id = static_cast<int>(E->th.size());
    if (id >= static_cast<int>(MAXT)) {
        std::fprintf(stderr, "sched: too many threads\n");
        std::_Exit(4);
    }
    E->th.emplace_back(new thr());
    auto &t = *E->th.back();
    sem_init(&t.sem, 0, 0);
    t.vc = E->th[tid]->vc;
    t.vc[id] = 1;
    ++E->th[tid]->vc[tid];
    ++E->alive;
    thr *self = &t;
    t.t.reset(new std::thread([self, id, f]() {
        {
            guard g2;
            while (sem_wait(&self->sem) != 0) {
            }
            tid = id;
            // the stack may be that of a thread that already ended
            pthread_attr_t a;
            void *lo = nullptr;
            std::size_t n = 0;
            if (pthread_getattr_np(pthread_self(), &a) == 0) {
                pthread_attr_getstack(&a, &lo, &n);
                pthread_attr_destroy(&a);
            }
            const auto b = reinterpret_cast<std::uintptr_t>(lo);
            in_shadow = true;
            for (auto it = E->shadow.begin(); it != E->shadow.end();) it = it->first - b < n ? E->shadow.erase(it) : std::next(it);
            in_shadow = false;
        }
        f();
        guard g3;
        E->th[id]->st = thr::DONE;
        --E->alive;
        reschedule(true);
        tid = -1;
    }));
    reschedule(false);
    return id;
}
void join(int id)
{
    guard g;
    auto &t = *E->th[tid];
    t.st = thr::JOIN;
    t.join = id;
    reschedule(!enabled(tid));
    t.st = thr::RUN;
    join_vc(t.vc, E->th[id]->vc);
    E->th[id]->t->join();
}
result explore(unsigned bound, std::uint64_t max_runs, const std::function<void()> &body, const std::function<void(const std::string &)> &after)
{
    result r;
    static engine e;
    e.choice.clear();
    e.arity.clear();
    e.seen.clear();
    e.races.clear();
    e.bound = bound;
    e.points = e.accesses = 0;
    while (true) {
        e.th.clear();
        e.locks.clear();
        e.sync.clear();
        e.shadow.clear();
        e.pos = 0;
        e.used = 0;
        e.spin = 0;
        e.alive = 1;
        e.th.emplace_back(new thr());
        e.th[0]->vc[0] = 1;
        sem_init(&e.th[0]->sem, 0, 0);
        E = &e;
        tid = 0;
        e.running = true;
        body();
        {
            guard g;
            // threads the body did not join
            for (std::size_t i = 1; i < e.th.size(); ++i)
                if (e.th[i]->t->joinable()) join(static_cast<int>(i));
            e.running = false;
            tid = -1;
        }
        ++r.runs;
        r.max_threads = std::max(r.max_threads, static_cast<unsigned>(e.th.size()));
        after(describe());
        e.choice.resize(std::min(e.choice.size(), e.pos));
        e.arity.resize(e.choice.size());
        while (!e.choice.empty() && e.choice.back() + 1u >= e.arity.back()) {
            e.choice.pop_back();
            e.arity.pop_back();
        }
        if (e.choice.empty()) break;
        ++e.choice.back();
        if (r.runs >= max_runs) {
            r.complete = false;
            break;
        }
    }
    r.points = e.points;
    r.accesses = e.accesses;
    r.races = e.races;
    return r;
}
} // namespace sched

using namespace sched;
extern "C" {
// ---- instrumented accesses ----
#define PC __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n)                                                                                                          \
    void __tsan_read##n(void *p)                                                                                       \
    {                                                                                                                  \
        access(p, n, false, PC);                                                                                       \
    }                                                                                                                  \
    void __tsan_write##n(void *p)                                                                                      \
    {                                                                                                                  \
        access(p, n, true, PC);                                                                                        \
    }                                                                                                                  \
    void __tsan_unaligned_read##n(void *p)                                                                             \
    {                                                                                                                  \
        access(p, n, false, PC);                                                                                       \
    }                                                                                                                  \
    void __tsan_unaligned_write##n(void *p)                                                                            \
    {                                                                                                                  \
        access(p, n, true, PC);                                                                                        \
    }                                                                                                                  \
    void __tsan_volatile_read##n(void *p)                                                                              \
    {                                                                                                                  \
        access(p, n, false, PC);                                                                                       \
    }                                                                                                                  \
    void __tsan_volatile_write##n(void *p)                                                                             \
    {                                                                                                                  \
        access(p, n, true, PC);                                                                                        \
    }                                                                                                                  \
    void __tsan_unaligned_volatile_read##n(void *p)                                                                    \
    {                                                                                                                  \
        access(p, n, false, PC);                                                                                       \
    }                                                                                                                  \
    void __tsan_unaligned_volatile_write##n(void *p)                                                                   \
    {                                                                                                                  \
        access(p, n, true, PC);                                                                                        \
    }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
void __tsan_read_range(void *p, unsigned long n)
{
    access(p, static_cast<unsigned>(n), false, PC);
}
void __tsan_write_range(void *p, unsigned long n)
{
    access(p, static_cast<unsigned>(n), true, PC);
}
void __tsan_vptr_update(void **p, void *v)
{
    if (*p != v) access(p, 8, true, PC);
}
void __tsan_vptr_read(void **p)
{
    access(p, 8, false, PC);
}
// ---- atomics: scheduling points, with the happens-before edges their order asks for ----
static void at_begin(volatile void *p, unsigned n, bool wr, int mo, void *pc)
{
    if (!mine()) return;
    {
        guard g;
        reschedule(false);
    }
    access(const_cast<void *>(p), n, wr, pc, true);
    if (mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST) {
        guard g;
        acquire(const_cast<void *>(p));
    }
}
static void at_end(volatile void *p, int mo)
{
    if (!mine()) return;
    if (mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST) {
        guard g;
        release(const_cast<void *>(p));
    }
}
#define AT(n, T)                                                                                                       \
    T __tsan_atomic##n##_load(const volatile T *p, int mo)                                                             \
    {                                                                                                                  \
        at_begin(const_cast<volatile T *>(p), sizeof(T), false, mo, PC);                                               \
        return __atomic_load_n(p, __ATOMIC_SEQ_CST);                                                                   \
    }                                                                                                                  \
    void __tsan_atomic##n##_store(volatile T *p, T v, int mo)                                                          \
    {                                                                                                                  \
        at_begin(p, sizeof(T), true, __ATOMIC_RELAXED, PC);                                                            \
        __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                                                      \
        at_end(p, mo);                                                                                                 \
    }                                                                                                                  \
    int __tsan_atomic##n##_compare_exchange_strong(volatile T *p, T *e, T d, int mo, int)                              \
    {                                                                                                                  \
        at_begin(p, sizeof(T), true, mo, PC);                                                                          \
        int r = __atomic_compare_exchange_n(p, e, d, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                       \
        if (r) at_end(p, mo);                                                                                          \
        return r;                                                                                                      \
    }                                                                                                                  \
    int __tsan_atomic##n##_compare_exchange_weak(volatile T *p, T *e, T d, int mo, int)                                \
    {                                                                                                                  \
        at_begin(p, sizeof(T), true, mo, PC);                                                                          \
        int r = __atomic_compare_exchange_n(p, e, d, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                       \
        if (r) at_end(p, mo);                                                                                          \
        return r;                                                                                                      \
    }                                                                                                                  \
    T __tsan_atomic##n##_compare_exchange_val(volatile T *p, T e, T d, int mo, int)                                    \
    {                                                                                                                  \
        at_begin(p, sizeof(T), true, mo, PC);                                                                          \
        __atomic_compare_exchange_n(p, &e, d, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                              \
        at_end(p, mo);                                                                                                 \
        return e;                                                                                                      \
    }
#define RMW(n, T, name)                                                                                                \
    T __tsan_atomic##n##_##name(volatile T *p, T v, int mo)                                                            \
    {                                                                                                                  \
        at_begin(p, sizeof(T), true, mo, PC);                                                                          \
        T r = __atomic_##name(p, v, __ATOMIC_SEQ_CST);                                                                 \
        at_end(p, mo);                                                                                                 \
        return r;                                                                                                      \
    }
#define ALL(n, T)                                                                                                      \
    AT(n, T)                                                                                                           \
    RMW(n, T, fetch_add)                                                                                               \
    RMW(n, T, fetch_sub)                                                                                               \
    RMW(n, T, fetch_and)                                                                                               \
    RMW(n, T, fetch_or)                                                                                                \
    RMW(n, T, fetch_xor)                                                                                               \
    RMW(n, T, fetch_nand)                                                                                              \
    T __tsan_atomic##n##_exchange(volatile T *p, T v, int mo)                                                          \
    {                                                                                                                  \
        at_begin(p, sizeof(T), true, mo, PC);                                                                          \
        T r = __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);                                                             \
        at_end(p, mo);                                                                                                 \
        return r;                                                                                                      \
    }
ALL(8, unsigned char)
ALL(16, unsigned short)
ALL(32, unsigned int)
ALL(64, unsigned long)
static char fence_obj;
void __tsan_atomic_thread_fence(int)
{
    if (!mine()) return;
    guard g;
    acquire(&fence_obj);
    release(&fence_obj);
}
void __tsan_atomic_signal_fence(int) {}

// ---- memory functions called by the instrumented objects (--wrap) ----
void *__real_memcpy(void *, const void *, std::size_t);
void *__real_memmove(void *, const void *, std::size_t);
void *__real_memset(void *, int, std::size_t);
void *__wrap_memcpy(void *d, const void *s, std::size_t n)
{
    access(const_cast<void *>(s), static_cast<unsigned>(n), false, PC);
    access(d, static_cast<unsigned>(n), true, PC);
    return __real_memcpy(d, s, n);
}
void *__wrap_memmove(void *d, const void *s, std::size_t n)
{
    access(const_cast<void *>(s), static_cast<unsigned>(n), false, PC);
    access(d, static_cast<unsigned>(n), true, PC);
    return __real_memmove(d, s, n);
}
void *__wrap_memset(void *d, int c, std::size_t n)
{
    access(d, static_cast<unsigned>(n), true, PC);
    return __real_memset(d, c, n);
}
void *__real_malloc(std::size_t);
void *__wrap_malloc(std::size_t n)
{
    void *p = __real_malloc(n);
    if (p) forget(p, n);
    return p;
}
// initialization of function-local statics orders the initializing thread before the others
int __real___cxa_guard_acquire(void *);
void __real___cxa_guard_release(void *);
int __wrap___cxa_guard_acquire(void *g)
{
    int r = __real___cxa_guard_acquire(g);
    if (mine()) {
        guard gg;
        acquire(g);
    }
    return r;
}
void __wrap___cxa_guard_release(void *g)
{
    if (mine()) {
        guard gg;
        release(g);
    }
    __real___cxa_guard_release(g);
}

// ---- blocking primitives of the C library ----
#define NEXT(name)                                                                                                     \
    static auto real = reinterpret_cast<decltype(&name)>(dlsym(RTLD_NEXT, #name))
int pthread_mutex_lock(pthread_mutex_t *m)
{
    NEXT(pthread_mutex_lock);
    if (!mine()) return real(m);
    guard g;
    do_lock(m, false);
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m)
{
    NEXT(pthread_mutex_trylock);
    if (!mine()) return real(m);
    guard g;
    return do_try(m, false) ? 0 : 16;
}
int pthread_mutex_unlock(pthread_mutex_t *m)
{
    NEXT(pthread_mutex_unlock);
    if (!mine()) return real(m);
    guard g;
    do_unlock(m);
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t *m)
{
    NEXT(pthread_rwlock_rdlock);
    if (!mine()) return real(m);
    guard g;
    do_lock(m, true);
    return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t *m)
{
    NEXT(pthread_rwlock_wrlock);
    if (!mine()) return real(m);
    guard g;
    do_lock(m, false);
    return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t *m)
{
    NEXT(pthread_rwlock_unlock);
    if (!mine()) return real(m);
    guard g;
    do_unlock(m);
    return 0;
}
int pthread_spin_lock(pthread_spinlock_t *m)
{
    NEXT(pthread_spin_lock);
    if (!mine()) return real(m);
    guard g;
    do_lock(const_cast<int *>(m), false);
    return 0;
}
int pthread_spin_unlock(pthread_spinlock_t *m)
{
    NEXT(pthread_spin_unlock);
    if (!mine()) return real(m);
    guard g;
    do_unlock(const_cast<int *>(m));
    return 0;
}
}
void *operator new(std::size_t n)
{
    void *p = std::malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    forget(p, n);
    return p;
}
void *operator new[](std::size_t n)
{
    return operator new(n);
}
void operator delete(void *p) noexcept
{
    std::free(p);
}
void operator delete[](void *p) noexcept
{
    std::free(p);
}
void operator delete(void *p, std::size_t) noexcept
{
    std::free(p);
}
void operator delete[](void *p, std::size_t) noexcept
{
    std::free(p);
}
