// F01: dcgp::function is a value: whatever history of constructions, copies, moves, assignments, calls and (de)serializations
// two containers went through, each behaves as the callable the model says it holds. Model = plain variant per slot.
// All histories up to a depth are enumerated on the real class, plus a breadth-first search over the model's state graph in
// which every edge replays its whole history on fresh real objects.
#include "mc.hpp"
#include <deque>
#include <memory>
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/serialization/string.hpp>
#include <boost/serialization/unique_ptr.hpp>
#include <boost/serialization/vector.hpp>
#include <dcgp/function.hpp>

using pagmo::thread_safety;
static long live = 0; // live instances of the counting callables
static bool copy_throws = false;

static int twice(int x)
{
    return 2 * x;
}
static int minus(int x)
{
    return -x;
}
// stateful callable, no declared thread safety (-> basic)
struct adder {
    int s = 1;
    adder()
    {
        ++live;
    }
    explicit adder(int v) : s(v)
    {
        ++live;
    }
    adder(const adder &o) : s(o.s)
    {
        if (copy_throws) throw std::runtime_error("copy");
        ++live;
    }
    adder(adder &&o) noexcept : s(o.s)
    {
        o.s = -7777;
        ++live;
    }
    adder &operator=(const adder &) = default;
    ~adder()
    {
        --live;
    }
    int operator()(int x) const
    {
        if (x == 13) throw std::domain_error("13");
        return x + s;
    }
    template <typename A>
    void serialize(A &a, unsigned)
    {
        a &s;
    }
};
template <int TS>
struct safe {
    int s = 2;
    int operator()(int x) const
    {
        return s * x + TS;
    }
    thread_safety get_thread_safety() const
    {
        return TS == 0 ? thread_safety::none : TS == 1 ? thread_safety::basic : thread_safety::constant;
    }
    template <typename A>
    void serialize(A &a, unsigned)
    {
        a &s;
    }
};
using F = dcgp::function<int(int)>;
namespace boost::serialization
{
template <typename A>
void serialize(A &, int (*&)(int), unsigned)
{
}
} // namespace boost::serialization
DCGP_S11N_FUNCTION_EXPORT(v_adder, adder, int, int)
DCGP_S11N_FUNCTION_EXPORT(v_safe0, safe<0>, int, int)
DCGP_S11N_FUNCTION_EXPORT(v_safe2, safe<2>, int, int)

enum what { MOVED, NUL, TWICE, MINUS, ADDER, SAFE0, SAFE1, SAFE2 };
struct model {
    what k = NUL;
    int s = 0;
    thread_safety ts() const
    {
        return k == SAFE0 ? thread_safety::none : k == SAFE2 ? thread_safety::constant : thread_safety::basic;
    }
    bool operator<(const model &o) const
    {
        return std::tie(k, s) < std::tie(o.k, o.s);
    }
};
using pair_m = std::pair<model, model>;
struct world {
    F f[2];
    model m[2];
};
struct op {
    std::string name;
    std::function<bool(const model *)> enabled;
    std::function<void(world &)> go;
};
// value expected: ok, error "runtime" (null pointer), "domain"
static std::pair<std::string, int> want_call(const model &m, int x)
{
    switch (m.k) {
        case NUL: return {"runtime", 0};
        case TWICE: return {"", 2 * x};
        case MINUS: return {"", -x};
        case ADDER: return x == 13 ? std::make_pair(std::string("domain"), 0) : std::make_pair(std::string(), x + m.s);
        case SAFE0: return {"", m.s * x};
        case SAFE1: return {"", m.s * x + 1};
        default: return {"", m.s * x + 2};
    }
}
static std::pair<std::string, int> do_call(const F &f, int x)
{
    try {
        return {"", f(x)};
    } catch (const std::domain_error &) {
        return {"domain", 0};
    } catch (const std::runtime_error &) {
        return {"runtime", 0};
    }
}
static std::string slot_wrong(const F &f, const model &m)
{
    if (f.is_valid() != (m.k != MOVED)) return "is_valid() is " + std::to_string(f.is_valid());
    if (m.k == MOVED) return "";
    if (f.get_thread_safety() != m.ts()) return "thread safety " + std::to_string(int(f.get_thread_safety()));
    for (int x : {0, 3, -5, 13}) {
        if (do_call(f, x) != want_call(m, x)) return "f(" + std::to_string(x) + ") -> " + do_call(f, x).first + std::to_string(do_call(f, x).second) + " expected " + want_call(m, x).first + std::to_string(want_call(m, x).second);
    }
    const bool fp = m.k == NUL || m.k == TWICE || m.k == MINUS;
    if (f.is<int (*)(int)>() != fp || f.is<adder>() != (m.k == ADDER) || f.is<safe<0>>() != (m.k == SAFE0) || f.is<safe<1>>() != (m.k == SAFE1) || f.is<safe<2>>() != (m.k == SAFE2) || f.is<double (*)(int)>() || f.is<int>()) return "is<>() is wrong";
    if ((f.extract<adder>() != nullptr) != (m.k == ADDER)) return "extract is wrong";
    if (m.k == ADDER && f.extract<adder>()->s != m.s) return "extracted state " + std::to_string(f.extract<adder>()->s);
    if (fp && *f.extract<int (*)(int)>() != (m.k == NUL ? nullptr : m.k == TWICE ? &twice : &minus)) return "extracted pointer";
    return "";
}
static std::vector<op> alphabet()
{
    std::vector<op> v;
    auto always = [](const model *) { return true; };
    for (int i = 0; i < 2; ++i) {
        std::string I = std::to_string(i);
        auto add = [&](const std::string &n, std::function<bool(const model *)> en, std::function<void(world &)> g) { v.push_back({n + I, en, g}); };
        add("default->", always, [i](world &w) { w.f[i] = F(); w.m[i] = {NUL, 0}; });
        add("null pointer->", always, [i](world &w) { w.f[i] = F(static_cast<int (*)(int)>(nullptr)); w.m[i] = {NUL, 0}; });
        add("function->", always, [i](world &w) { w.f[i] = twice; w.m[i] = {TWICE, 0}; });
        add("pointer->", always, [i](world &w) { int (*p)(int) = &minus; w.f[i] = F(p); w.m[i] = {MINUS, 0}; });
        add("temporary functor->", always, [i](world &w) { w.f[i] = F(adder(10)); w.m[i] = {ADDER, 10}; });
        add("named functor->", always, [i](world &w) {
            const adder a(20);
            w.f[i] = F(a);
            mc::check(a.s == 20, "source-changed", []() { return std::string("constructing from a named callable changed it"); });
            w.m[i] = {ADDER, 20};
        });
        add("non-const functor->", always, [i](world &w) {
            adder a(20);
            w.f[i] = F(a);
            mc::check(a.s == 20, "source-changed", []() { return std::string("constructing from a named callable changed it"); });
            a.s = 999;
            w.m[i] = {ADDER, 20};
        });
        add("safety none->", always, [i](world &w) { w.f[i] = safe<0>{}; w.m[i] = {SAFE0, 2}; });
        add("safety basic->", always, [i](world &w) { w.f[i] = safe<1>{}; w.m[i] = {SAFE1, 2}; });
        add("safety constant->", always, [i](world &w) { w.f[i] = safe<2>{}; w.m[i] = {SAFE2, 2}; });
        auto valid = [i](const model *m) { return m[i].k != MOVED; };
        const int j = 1 - i;
        add("copy-assign from other->", [j](const model *m) { return m[j].k != MOVED; }, [i, j](world &w) { w.f[i] = static_cast<const F &>(w.f[j]); w.m[i] = w.m[j]; });
        add("copy-construct from other->", [j](const model *m) { return m[j].k != MOVED; }, [i, j](world &w) {
            F t(static_cast<const F &>(w.f[j]));
            w.f[i] = std::move(t);
            mc::check(!t.is_valid(), "moved-from-valid", []() { return std::string("moved-from container reports to be valid"); });
            w.m[i] = w.m[j];
        });
        add("copy-construct from non-const other->", [j](const model *m) { return m[j].k != MOVED; }, [i, j](world &w) {
            F t(w.f[j]);
            w.f[i] = std::move(t);
            w.m[i] = w.m[j];
        });
        add("move-assign from other->", always, [i, j](world &w) { w.f[i] = std::move(w.f[j]); w.m[i] = w.m[j]; w.m[j] = {MOVED, 0}; });
        add("move-construct from other->", always, [i, j](world &w) {
            F t(std::move(w.f[j]));
            w.f[i] = std::move(t);
            w.m[i] = w.m[j];
            w.m[j] = {MOVED, 0};
        });
        add("self copy-assign ", valid, [i](world &w) { F &r = w.f[i]; w.f[i] = static_cast<const F &>(r); });
        add("self move-assign ", always, [i](world &w) { F &r = w.f[i]; w.f[i] = std::move(r); });
        if (i == 0) add("swap ", always, [](world &w) { std::swap(w.f[0], w.f[1]); std::swap(w.m[0], w.m[1]); });
        add("mutate through extract ", [i](const model *m) { return m[i].k == ADDER && m[i].s < 100; }, [i](world &w) { w.f[i].extract<adder>()->s += 100; w.m[i].s += 100; });
        add("copy-assign whose copy fails->", [j](const model *m) { return m[j].k == ADDER; }, [i, j](world &w) {
            copy_throws = true;
            std::string o = mc::outcome_of([&]() { w.f[i] = static_cast<const F &>(w.f[j]); });
            copy_throws = false;
            mc::check(!o.empty(), "copy-throw", []() { return std::string("exception of the callable's copy constructor swallowed"); });
        });
        auto rt = [i, j](auto oa, auto ia) {
            return [i, j, oa, ia](world &w) {
                std::stringstream ss;
                oa(ss, w.f[j]);
                ia(ss, w.f[i]);
                w.m[i] = w.m[j];
            };
        };
        auto serializable = [j](const model *m) { return m[j].k == ADDER || m[j].k == SAFE0 || m[j].k == SAFE2; };
        add("text archive of other->", serializable, rt([](std::stringstream &s, F &f) { boost::archive::text_oarchive a(s); a << f; }, [](std::stringstream &s, F &f) { boost::archive::text_iarchive a(s); a >> f; }));
        add("binary archive of other->", serializable, rt([](std::stringstream &s, F &f) { boost::archive::binary_oarchive a(s); a << f; }, [](std::stringstream &s, F &f) { boost::archive::binary_iarchive a(s); a >> f; }));
    }
    return v;
}
static void verify(world &w, const std::function<std::string()> &h)
{
    for (int i = 0; i < 2; ++i) {
        std::string e = slot_wrong(w.f[i], w.m[i]);
        mc::check(e.empty(), "slot", [&]() { return h() + ": slot " + std::to_string(i) + " " + e; });
    }
    long want = (w.m[0].k == ADDER) + (w.m[1].k == ADDER);
    mc::check(live == want, "lifetime", [&]() { return h() + ": " + std::to_string(live) + " live callables instead of " + std::to_string(want); });
}
static void replay(const std::vector<op> &ops, const std::vector<unsigned> &h, bool each)
{
    auto name = [&]() {
        std::string s;
        for (auto i : h) s += ops[i].name + "; ";
        return s;
    };
    {
        world w;
        for (auto i : h) {
            if (!ops[i].enabled(w.m)) return;
            ops[i].go(w);
            ++mc::rep().transitions;
            if (each) verify(w, name);
        }
        verify(w, name);
        ++mc::rep().traces;
    }
    mc::check(live == 0, "leak", [&]() { return name() + " leaks " + std::to_string(live); });
    live = 0;
}
static void histories(unsigned depth)
{
    auto ops = alphabet();
    for (unsigned first = 0; first < ops.size(); ++first) {
        if (!mc::begin("histories of length " + std::to_string(depth) + " starting with " + ops[first].name)) continue;
        std::vector<unsigned> dims(depth - 1u, static_cast<unsigned>(ops.size()));
        mc::product(dims, [&](const std::vector<unsigned> &v) {
            std::vector<unsigned> h{first};
            h.insert(h.end(), v.begin(), v.end());
            replay(ops, h, false);
            mc::alive();
        });
    }
}
static void search()
{
    if (!mc::begin("breadth-first search")) return;
    auto ops = alphabet();
    std::map<pair_m, std::vector<unsigned>> seen;
    std::deque<std::vector<unsigned>> todo{{}};
    seen[{model(), model()}] = {};
    while (!todo.empty()) {
        auto h = todo.front();
        todo.pop_front();
        ++mc::rep().states;
        for (unsigned i = 0; i < ops.size(); ++i) {
            auto nh = h;
            nh.push_back(i);
            // the model state after nh
            pair_m p;
            {
                world w;
                for (auto k : h) ops[k].go(w);
                if (!ops[i].enabled(w.m)) continue;
            }
            live = 0;
            replay(ops, nh, true);
            {
                world w;
                for (auto k : nh) ops[k].go(w);
                p = {w.m[0], w.m[1]};
            }
            live = 0;
            if (seen.insert({p, nh}).second) todo.push_back(nh);
        }
        mc::alive();
    }
    mc::sample("model states " + std::to_string(seen.size()) + ", deepest history " + std::to_string(todo.size()));
    for (auto &q : seen) mc::outcome(std::to_string(q.first.first.k) + "," + std::to_string(q.first.first.s) + "," + std::to_string(q.first.second.k) + "," + std::to_string(q.first.second.s));
}
// loading from an archive cut at any point either fails and leaves the target as it was, or gives the stored function
template <typename OA, typename IA>
static void truncated(const char *tag)
{
    if (!mc::begin(std::string("truncated ") + tag)) return;
    for (int src = 0; src < 3; ++src)
        for (int dst = 0; dst < 4; ++dst) {
            std::stringstream ss;
            F f = src == 0 ? F(adder(41)) : src == 1 ? F(safe<0>{}) : F(safe<2>{});
            model fm{src == 0 ? ADDER : src == 1 ? SAFE0 : SAFE2, src == 0 ? 41 : 2};
            {
                OA a(ss);
                a << static_cast<const F &>(f);
            }
            std::string all = ss.str();
            for (std::size_t cut = 0; cut <= all.size(); ++cut) {
                F g;
                model gm;
                if (dst == 1) g = twice, gm = {TWICE, 0};
                if (dst == 2) g = F(adder(5)), gm = {ADDER, 5};
                if (dst == 3) g = safe<2>{}, gm = {SAFE2, 2};
                std::stringstream is(all.substr(0, cut));
                bool threw = false;
                try {
                    IA a(is);
                    a >> g;
                } catch (...) {
                    threw = true;
                }
                ++mc::rep().transitions;
                ++mc::rep().traces;
                if (cut == all.size()) mc::check(!threw, "load", []() { return std::string("complete archive not loaded"); });
                if (threw) {
                    std::string e = slot_wrong(g, gm);
                    mc::check(e.empty(), "load-half", [&]() { return "archive cut at " + std::to_string(cut) + " of " + std::to_string(all.size()) + " threw but target changed: " + e; });
                } else if (cut == all.size()) {
                    std::string e = slot_wrong(g, fm);
                    mc::check(e.empty(), "load", [&]() { return e; });
                }
            }
            ++mc::rep().states;
        }
}
// arguments and results pass through unchanged: by value, by reference, move-only, returned references, const objects
struct tracked {
    int v = 5;
    int copies = 0, moves = 0;
    tracked() = default;
    tracked(const tracked &o) : v(o.v), copies(o.copies + 1), moves(o.moves) {}
    tracked(tracked &&o) : v(o.v), copies(o.copies), moves(o.moves + 1)
    {
        o.v = -1;
    }
};
static void forwarding()
{
    if (!mc::begin("forwarding")) return;
    auto ok = [](bool b, const char *what) {
        ++mc::rep().transitions;
        ++mc::rep().traces;
        mc::check(b, "forwarding", [&]() { return std::string(what); });
    };
    {
        dcgp::function<int(int &, const int &)> f([](int &a, const int &b) { a += b; return a; });
        int a = 1, b = 5;
        ok(f(a, b) == 6 && a == 6 && b == 5, "reference arguments");
        auto g = f;
        ok(g(a, b) == 11 && a == 11, "reference arguments of a copy");
        dcgp::function<const void *(const std::vector<double> &)> h([](const std::vector<double> &v) { return static_cast<const void *>(&v); });
        std::vector<double> v{1., 2.};
        ok(h(v) == &v, "const reference argument is the caller's object");
        dcgp::function<int &(int &)> r([](int &x) -> int & { return x; });
        ok(&r(a) == &a, "returned reference");
    }
    {
        dcgp::function<int(std::unique_ptr<int>)> f([](std::unique_ptr<int> p) { return *p; });
        ok(f(std::make_unique<int>(9)) == 9, "move-only argument");
        dcgp::function<std::unique_ptr<int>(int)> g([](int x) { return std::make_unique<int>(x); });
        ok(*g(4) == 4, "move-only result");
        dcgp::function<int(std::unique_ptr<int> &&)> h([](std::unique_ptr<int> &&p) { auto q = std::move(p); return *q; });
        auto p = std::make_unique<int>(8);
        ok(h(std::move(p)) == 8 && !p, "rvalue reference argument");
        dcgp::function<int(std::unique_ptr<int> &&)> h2([](std::unique_ptr<int> &&p) { return *p; });
        p = std::make_unique<int>(8);
        ok(h2(std::move(p)) == 8 && p, "rvalue reference argument not consumed");
    }
    {
        dcgp::function<int(tracked)> f([](tracked t) { return t.v * 10 + t.copies; });
        tracked t;
        ok(f(t) == 51 && t.v == 5, "argument by value: copied once, the caller's object untouched");
        ok(f(tracked()) == 50, "temporary argument by value: not copied");
        dcgp::function<int(const tracked &)> g([](const tracked &q) { return q.v * 10 + q.copies + q.moves; });
        ok(g(t) == 50, "argument by const reference: not copied");
        dcgp::function<int(tracked, tracked)> two([](tracked a, tracked b) { return a.v * 100 + b.v; });
        tracked u;
        u.v = 7;
        ok(two(t, u) == 507 && two(u, t) == 705, "order of the arguments");
        dcgp::function<int(int, int, int, int)> four([](int a, int b, int c, int d) { return a * 1000 + b * 100 + c * 10 + d; });
        ok(four(1, 2, 3, 4) == 1234, "order of four arguments");
        dcgp::function<void(int &)> v([](int &x) { ++x; });
        int x = 1;
        v(x);
        ok(x == 2, "void result");
    }
    {
        // the callable itself is copied with its state, calls on one copy never affect another
        int calls = 0;
        auto sh = std::make_shared<int>(0);
        dcgp::function<int(int)> f([&calls, sh](int x) { ++calls; return x + static_cast<int>(sh.use_count()); });
        auto base = f(0);
        {
            auto g = f;
            ok(g(0) == base + 1 && calls == 2, "a copy holds its own callable");
        }
        ok(f(0) == base, "destroying a copy releases its callable");
        f = twice;
        ok(sh.use_count() == 1, "assigning releases the old callable");
        std::string s;
        dcgp::function<int()> thrower([]() -> int { throw std::out_of_range("x"); });
        try {
            thrower();
        } catch (const std::out_of_range &) {
            s = "out_of_range";
        }
        ok(s == "out_of_range", "exceptions of the callable reach the caller");
        dcgp::function<int()> null_f;
        s = "";
        try {
            null_f();
        } catch (const std::runtime_error &) {
            s = "runtime_error";
        }
        ok(s == "runtime_error", "calling an empty function");
        dcgp::function<void(double)> null_v;
        s = "";
        try {
            null_v(1.);
        } catch (const std::runtime_error &) {
            s = "runtime_error";
        }
        ok(s == "runtime_error", "calling an empty function (void)");
        struct over {
            int operator()(int) const { return 1; }
            int operator()(int) { return 2; }
        };
        dcgp::function<int(int)> o{over{}};
        ok(o(0) == 1, "the const call operator is used");
        dcgp::function<int(int)> sf(std::function<int(int)>([](int q) { return q + 3; }));
        ok(sf(4) == 7 && sf.is<std::function<int(int)>>(), "std::function inside");
    }
    ++mc::rep().states;
}
int main(int argc, char **argv)
{
    return mc::main(argc, argv, []() {
        bool t = mc::rep().thorough;
        search();
        histories(2);
        histories(3);
        if (t) histories(4);
        truncated<boost::archive::text_oarchive, boost::archive::text_iarchive>("text");
        truncated<boost::archive::binary_oarchive, boost::archive::binary_iarchive>("binary");
        forwarding();
        mc::sample("history: temporary functor->0; move-assign from other->1; mutate through extract 1; copy-assign from other->0");
    });
}
