// R01: the global random sequence is one sequence: concurrent next() / set_seed() are linearizable with respect to a
// sequential Mersenne Twister, free of data races and deadlocks, in every schedule; seeding makes it repeat exactly.
#include "mc.hpp"
#include "sched.hpp"
#include <dcgp/rng.hpp>

struct ev {
    int th;
    bool seed;
    unsigned arg, ret;
    unsigned inv, res;
};
// bookkeeping of the harness, invisible to the race detector (only one thread runs at a time)
static std::vector<ev> *H;
static unsigned CLK;
__attribute__((no_sanitize("thread"), noinline)) static unsigned tick()
{
    return ++CLK;
}
__attribute__((no_sanitize("thread"), noinline)) static void put(std::size_t slot, const ev &e)
{
    H->data()[slot].th = e.th;
    H->data()[slot].seed = e.seed;
    H->data()[slot].arg = e.arg;
    H->data()[slot].ret = e.ret;
    H->data()[slot].inv = e.inv;
    H->data()[slot].res = e.res;
}
static bool linearizable(const std::vector<ev> &h, std::vector<bool> &used, std::mt19937 &g, std::size_t left)
{
    if (left == 0u) return true;
    for (std::size_t i = 0; i < h.size(); ++i) {
        if (used[i]) continue;
        bool first = true; // no unused operation returned before this one was called
        for (std::size_t j = 0; j < h.size() && first; ++j) first = used[j] || j == i || !(h[j].res < h[i].inv);
        if (!first) continue;
        std::mt19937 q(g);
        if (h[i].seed) q.seed(h[i].arg);
        else if (static_cast<unsigned>(q()) != h[i].ret) continue;
        used[i] = true;
        if (linearizable(h, used, q, left - 1u)) return true;
        used[i] = false;
    }
    return false;
}
using prog = std::vector<int>; // -1: next, otherwise set_seed(value)
static std::string show(const std::vector<ev> &h)
{
    std::string s;
    for (auto &e : h) s += "T" + std::to_string(e.th) + (e.seed ? ".set_seed(" + std::to_string(e.arg) + ")" : ".next()=" + std::to_string(e.ret)) + "[" + std::to_string(e.inv) + "," + std::to_string(e.res) + "] ";
    return s;
}
static void concurrent(const std::vector<prog> &ps, unsigned bound)
{
    std::string d = "threads";
    std::size_t total = 0;
    for (auto &p : ps) {
        d += " (";
        for (auto o : p) d += o < 0 ? "n" : "s" + std::to_string(o);
        d += ")";
        total += p.size();
    }
    if (!mc::begin(d)) return;
    std::vector<ev> h(total + 2u);
    H = &h;
    auto r = sched::explore(
        bound, 200000,
        [&]() {
            CLK = 0;
            dcgp::random_device::set_seed(7u);
            std::vector<int> id;
            std::size_t at = 0;
            for (std::size_t t = 0; t < ps.size(); ++t) {
                const prog p = ps[t];
                id.push_back(sched::spawn([p, t, at]() {
                    std::size_t k = at;
                    for (auto o : p) {
                        ev e{static_cast<int>(t), o >= 0, o >= 0 ? static_cast<unsigned>(o) : 0u, 0u, 0u, 0u};
                        e.inv = tick();
                        if (o < 0) e.ret = dcgp::random_device::next();
                        else dcgp::random_device::set_seed(static_cast<unsigned>(o));
                        e.res = tick();
                        put(k++, e);
                    }
                }));
                at += p.size();
            }
            for (auto i : id) sched::join(i);
            for (std::size_t k = 0; k < 2u; ++k) { // what comes after must agree with the same order
                ev e{9, false, 0u, 0u, tick(), 0u};
                e.ret = dcgp::random_device::next();
                e.res = tick();
                put(total + k, e);
            }
        },
        [&](const std::string &s) {
            std::mt19937 g(7u);
            std::vector<bool> used(h.size(), false);
            bool ok = linearizable(h, used, g, h.size());
            mc::check(ok, "not-linearizable", [&]() { return "schedule " + s + ": " + show(h); });
            std::string o;
            for (auto &e : h) o += std::to_string(e.ret) + " ";
            mc::outcome(d + o);
            mc::alive();
            if (mc::rep().samples.size() < 4u) mc::sample("schedule " + s + ": " + show(h));
        });
    mc::rep().states += r.runs;
    mc::rep().transitions += r.points;
    mc::rep().traces += r.runs;
    mc::rep().counters["accesses checked for races"] += r.accesses;
    mc::rep().counters["schedules"] += r.runs;
    if (!r.complete) mc::rep().exhaustive = false;
    for (auto &q : r.races) mc::fail("data-race", q);
}
static void sequential()
{
    if (!mc::begin("seeds")) return;
    for (unsigned long long s0 : {0ull, 1ull, 2ull, 5489ull, 65535ull, 65536ull, 2147483647ull, 2147483648ull, 4294967295ull, 123456789ull}) {
        unsigned s = static_cast<unsigned>(s0);
        std::mt19937 g(s);
        for (unsigned before = 0; before < 3u; ++before) {
            for (unsigned i = 0; i < before * 300u; ++i) dcgp::random_device::next();
            dcgp::random_device::set_seed(s);
            g.seed(s);
            for (unsigned i = 0; i < 1500u; ++i) {
                unsigned a = dcgp::random_device::next(), b = static_cast<unsigned>(g());
                ++mc::rep().transitions;
                mc::check(a == b, "sequence", [&]() { return "seed " + std::to_string(s) + " element " + std::to_string(i) + " is " + std::to_string(a) + " instead of " + std::to_string(b); });
            }
            ++mc::rep().traces;
        }
        ++mc::rep().states;
    }
}
int main(int argc, char **argv)
{
    return mc::main(argc, argv, []() {
        sched::on_deadlock = [](const std::string &d) {
            mc::fail("deadlock", d);
            mc::rep().write(true);
            ::_exit(1);
        };
        bool t = mc::rep().thorough;
        sequential();
        std::vector<prog> one{{-1}, {11}, {12}}, two;
        for (int a : {-1, 11, 12})
            for (int b : {-1, 11, 13}) two.push_back({a, b});
        unsigned B = t ? 6 : 3;
        for (auto &a : two)
            for (auto &b : two) concurrent({a, b}, B);
        for (auto &a : one)
            for (auto &b : one)
                for (auto &c : one) concurrent({a, b, c}, B);
        concurrent({{-1, -1, -1}, {-1, 11, -1}}, B);
        concurrent({{-1, -1}, {-1, 11}, {12, -1}}, t ? 3 : 2);
        if (t)
            for (auto &a : two)
                for (auto &b : two)
                    for (auto &c : one) concurrent({a, b, c}, 3);
    });
}
