// Stand-in for the parts of TBB the library uses (and a little more): each iteration/chunk is a thread of lib/sched, so that
// every schedule TBB could produce is explored. Outside the scheduler everything runs sequentially.
#ifndef VERIF_TBB_HPP
#define VERIF_TBB_HPP
#include <cstddef>
#include <exception>
#include <functional>
#include <iterator>
#include <sched.hpp>
#include <utility>
#include <vector>
namespace tbb
{
struct split {
};
namespace verif
{
// run n tasks; concurrently if the scheduler is active
template <typename F>
void run(std::size_t n, const F &f)
{
    if (!sched::active() || n < 2u) {
        for (std::size_t i = 0; i < n; ++i) f(i);
        return;
    }
    const std::size_t w = n < 5u ? n : 5u; // threads; each takes a block of consecutive tasks
    std::vector<std::exception_ptr> ex(w);
    std::vector<int> id;
    for (std::size_t t = 0; t < w; ++t) {
        id.push_back(sched::spawn([&ex, &f, t, w, n]() {
            try {
                for (std::size_t i = n * t / w; i < n * (t + 1u) / w; ++i) f(i);
            } catch (...) {
                ex[t] = std::current_exception();
            }
        }));
    }
    for (auto i : id) sched::join(i);
    for (auto &e : ex)
        if (e) std::rethrow_exception(e);
}
} // namespace verif
class spin_mutex
{
    char m_x = 0;

public:
    spin_mutex() = default;
    spin_mutex(const spin_mutex &) = delete;
    spin_mutex &operator=(const spin_mutex &) = delete;
    void lock()
    {
        sched::lock(&m_x);
    }
    bool try_lock()
    {
        return sched::try_lock(&m_x);
    }
    void unlock()
    {
        sched::unlock(&m_x);
    }
    class scoped_lock
    {
        spin_mutex *m = nullptr;

    public:
        scoped_lock() = default;
        scoped_lock(spin_mutex &q) : m(&q)
        {
            m->lock();
        }
        scoped_lock(const scoped_lock &) = delete;
        scoped_lock &operator=(const scoped_lock &) = delete;
        ~scoped_lock()
        {
            if (m) m->unlock();
        }
        void acquire(spin_mutex &q)
        {
            m = &q;
            m->lock();
        }
        bool try_acquire(spin_mutex &q)
        {
            if (!q.try_lock()) return false;
            m = &q;
            return true;
        }
        void release()
        {
            m->unlock();
            m = nullptr;
        }
    };
    static constexpr bool is_rw_mutex = false, is_recursive_mutex = false, is_fair_mutex = false;
};
using mutex = spin_mutex;
using queuing_mutex = spin_mutex;
using speculative_spin_mutex = spin_mutex;

template <typename V>
class blocked_range
{
    V m_b, m_e;
    std::size_t m_g;

public:
    using const_iterator = V;
    using size_type = std::size_t;
    blocked_range(V b, V e, std::size_t g = 1) : m_b(b), m_e(e), m_g(g) {}
    V begin() const
    {
        return m_b;
    }
    V end() const
    {
        return m_e;
    }
    std::size_t size() const
    {
        return static_cast<std::size_t>(m_e - m_b);
    }
    std::size_t grainsize() const
    {
        return m_g;
    }
    bool empty() const
    {
        return !(m_b < m_e);
    }
    bool is_divisible() const
    {
        return size() > m_g;
    }
};
struct auto_partitioner {
};
struct simple_partitioner {
};
struct static_partitioner {
};
struct affinity_partitioner {
};
template <typename I, typename F, typename... P>
std::enable_if_t<std::is_integral<I>::value> parallel_for(I first, I last, I step, const F &f, P &&...)
{
    std::size_t n = first < last ? (static_cast<std::size_t>(last - first) + static_cast<std::size_t>(step) - 1u) / static_cast<std::size_t>(step) : 0u;
    verif::run(n, [&](std::size_t i) { f(static_cast<I>(first + static_cast<I>(i) * step)); });
}
template <typename I, typename F>
std::enable_if_t<std::is_integral<I>::value> parallel_for(I first, I last, const F &f)
{
    parallel_for(first, last, static_cast<I>(1), f);
}
// ranges are split into single elements (the finest split TBB may choose)
template <typename V, typename F, typename... P>
void parallel_for(const blocked_range<V> &r, const F &f, P &&...)
{
    const std::size_t g = r.grainsize() ? r.grainsize() : 1u, n = (r.size() + g - 1u) / g;
    verif::run(n, [&](std::size_t i) {
        V b = r.begin() + static_cast<std::ptrdiff_t>(i * g), e = (i + 1u == n) ? r.end() : r.begin() + static_cast<std::ptrdiff_t>((i + 1u) * g);
        f(blocked_range<V>(b, e, g));
    });
}
template <typename It, typename F>
void parallel_for_each(It b, It e, const F &f)
{
    std::vector<It> v;
    for (; b != e; ++b) v.push_back(b);
    verif::run(v.size(), [&](std::size_t i) { f(*v[i]); });
}
template <typename C, typename F>
void parallel_for_each(C &c, const F &f)
{
    parallel_for_each(std::begin(c), std::end(c), f);
}
template <typename... F>
void parallel_invoke(const F &...f)
{
    std::vector<std::function<void()>> v{f...};
    verif::run(v.size(), [&](std::size_t i) { v[i](); });
}
template <typename V, typename T, typename F, typename R, typename... P>
T parallel_reduce(const blocked_range<V> &r, const T &id, const F &f, const R &red, P &&...)
{
    const std::size_t g = r.grainsize() ? r.grainsize() : 1u, n = (r.size() + g - 1u) / g;
    std::vector<T> part(n, id);
    verif::run(n, [&](std::size_t i) {
        V b = r.begin() + static_cast<std::ptrdiff_t>(i * g), e = (i + 1u == n) ? r.end() : r.begin() + static_cast<std::ptrdiff_t>((i + 1u) * g);
        part[i] = f(blocked_range<V>(b, e, g), id);
    });
    T acc(id);
    for (auto &p : part) acc = red(acc, p);
    return acc;
}
template <typename V, typename T, typename F, typename R, typename... P>
T parallel_deterministic_reduce(const blocked_range<V> &r, const T &id, const F &f, const R &red, P &&...)
{
    return parallel_reduce(r, id, f, red);
}
struct global_control {
    enum parameter { max_allowed_parallelism, thread_stack_size };
    global_control(parameter, std::size_t) {}
};
namespace this_task_arena
{
inline int max_concurrency()
{
    return 4;
}
template <typename F>
auto isolate(const F &f)
{
    return f();
}
} // namespace this_task_arena
} // namespace tbb
namespace oneapi
{
namespace tbb = ::tbb;
}
#endif
