// Controlled scheduler for real threads: exactly one registered thread runs at a time, every synchronization operation is a
// scheduling point, all schedules with at most `bound` preemptions are enumerated, and every explored schedule is checked for
// data races (vector clocks over the accesses the compiler instruments) and deadlocks.
// Programs using it are compiled with -fsanitize=thread and linked with lib/sched.cpp, which provides the __tsan_* entry
// points, instead of the ThreadSanitizer runtime.
#ifndef VERIF_SCHED_HPP
#define VERIF_SCHED_HPP
#include <cstdint>
#include <functional>
#include <string>
#include <vector>
namespace sched
{
struct result {
    std::uint64_t runs = 0;       // schedules executed
    std::uint64_t points = 0;     // scheduling decisions taken
    std::uint64_t accesses = 0;   // memory accesses checked for races
    unsigned max_threads = 0;
    bool complete = true;         // false if max_runs was hit
    std::vector<std::string> races; // distinct data races, human readable
    std::string deadlock;
};
// body runs as thread 0 once per schedule; after() is called when it returned (outside the scheduler), with the schedule
result explore(unsigned bound, std::uint64_t max_runs, const std::function<void()> &body, const std::function<void(const std::string &schedule)> &after);
// inside body only:
bool active(); // is the calling thread controlled?
int spawn(const std::function<void()> &f);
void join(int id);
void lock(void *m);
bool try_lock(void *m);
void unlock(void *m);
void point();
unsigned self();
// called (by the scheduler) when a deadlock is found; the process cannot continue the run
extern std::function<void(const std::string &)> on_deadlock;
} // namespace sched
#endif
