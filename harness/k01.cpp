// MODE 1: K01 named kernels compute their documented function at every arity, for every tuple of a value grid.
// MODE 2: K02 on generalized dual numbers they also give the true derivatives (checked against divided differences).
// MODE 4: K04 kernel sets: every sequence of insertions; thread safety; rejected names.
// MODE 5: F02 kernels and sets survive serialization.
#include "common.hpp"
#include "symb.hpp"
#if MODE == 5
#include <dcgp/wrapped_functions_s11n_implement.hpp>
#endif
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
using namespace hc;
using pagmo::thread_safety;

static const dvec GRID{0., 1., -1., 0.5, -2.25, 3., 40., -700., 1e-9};
static const dvec SMALL{0., 1., -0.5, 2.25, -700.};

static bool agrees(double got, double want)
{
    // equal, or differing by rounding only
    return mc::close(got, want, 1e-11, 1e-13);
}
static void values()
{
    for (auto &name : ref::kernel_names()) {
        auto want = ref::kernel_by_name(name);
        for (unsigned ar = 1; ar <= (mc::rep().thorough ? 6u : 5u); ++ar) {
            if (!mc::begin("kernel " + name + " arity " + std::to_string(ar))) continue;
            kernel_set<double> ks({name});
            kernel<double> k = ks[0], copy(k);
            const dvec &g = ar <= 3u ? GRID : SMALL;
            mc::product(std::vector<unsigned>(ar, static_cast<unsigned>(g.size())), [&](const uvec &ix) {
                dvec in;
                for (auto i : ix) in.push_back(g[i]);
                const dvec keep(in);
                double w = want(in), v = k(in);
                ++mc::rep().transitions;
                mc::check(agrees(v, w), "value", [&]() { return mc::str(in) + " -> " + mc::str(v) + " expected " + mc::str(w); });
                mc::check(mc::same_bits(v, copy(in)) && mc::same_bits(v, k(in)) && in == keep, "pure", [&]() { return mc::str(in); });
                if (ar == 1u) mc::check(mc::same_bits(v, k({in[0]})), "init-list", [&]() { return mc::str(in); });
                if (ar == 2u) mc::check(mc::same_bits(v, k({in[0], in[1]})), "init-list", [&]() { return mc::str(in); });
                if (name != "pdiv") {
                    kernel_set<audi::gdual_d> gs({name});
                    if (ar <= 2u) {
                        std::vector<audi::gdual_d> gi(in.begin(), in.end());
                        double gv = gs[0](gi).constant_cf();
                        mc::check(agrees(gv, w), "gdual-value", [&]() { return mc::str(in) + " -> " + mc::str(gv) + " expected " + mc::str(w); });
                    }
                }
                mc::outcome(name + mc::str(v));
            });
            ++mc::rep().states;
            ++mc::rep().traces;
            // the printed form, evaluated
            std::vector<std::string> sy;
            for (unsigned i = 0; i < ar; ++i) sy.push_back("x" + std::to_string(i));
            std::string f = k(sy);
            for (unsigned t = 0; t < 12u; ++t) {
                std::map<std::string, double> env;
                dvec in;
                for (unsigned i = 0; i < ar; ++i) {
                    in.push_back(std::vector<double>{0.5, -1.25, 2., 3.5, -0.25, 1.}[(t * 5u + i * (t + 1u)) % 6u]);
                    env[sy[i]] = in[i];
                }
                double p = 0;
                std::string err;
                try {
                    p = symb::eval(f, env);
                } catch (const std::exception &e) {
                    err = e.what();
                }
                mc::check(err.empty() && (agrees(p, want(in)) || !std::isfinite(p)), "printed", [&]() { return f + " at " + mc::str(in) + " = " + mc::str(p) + " expected " + mc::str(want(in)) + " " + err; });
            }
            mc::sample(f);
        }
    }
    for (auto &name : ref::kernel_names()) {
        if (!mc::begin("kernel " + name + " far")) continue;
        auto want = ref::kernel_by_name(name);
        kernel<double> k = kernel_set<double>({name})[0];
        auto test = [&](const dvec &in) {
            ++mc::rep().transitions;
            double w = want(in), v = k(in);
            mc::check(agrees(v, w), "value", [&]() { return std::to_string(in.size()) + " arguments " + mc::str(in) + " -> " + mc::str(v) + " expected " + mc::str(w); });
        };
        auto dual = [&](const dvec &in) {
            if (name == "pdiv") return;
            kernel_set<audi::gdual_d> gs({name});
            kernel_set<audi::gdual_v> gv({name});
            std::vector<audi::gdual_d> gi(in.begin(), in.end());
            double w = want(in), v = gs[0](gi).constant_cf();
            mc::check(agrees(v, w), "gdual-value", [&]() { return mc::str(in) + " -> " + mc::str(v) + " expected " + mc::str(w); });
        };
        // one argument: every multiple of an eighth up to 1024, every power of two up to the squares that overflow
        dvec ones;
        for (int i = -8192; i <= 8192; ++i) ones.push_back(i * 0.125);
        for (int e = -1074; e <= 500; ++e) for (double sg : {1., -1.}) ones.push_back(std::ldexp(sg, e)), ones.push_back(std::ldexp(sg * 1.7, e));
        for (double x : ones) {
            test({x});
            if (std::abs(x) < 700. && std::abs(x) > 1e-3) dual({x});
        }
        // two: the pairs of some of them
        dvec two{0., 1e-300, -1e-300, 1e100, -1e100, 1e-9};
        for (int i = -40; i <= 40; ++i) two.push_back(i * 0.5);
        for (int e = -60; e <= 60; e += 4) two.push_back(std::ldexp(1.3, e)), two.push_back(-std::ldexp(1.1, e));
        for (double x : two) for (double y : two) test({x, y});
        // many arguments: the same everywhere or alternating, and one of them different
        for (unsigned ar : {7u, 8u, 9u, 16u, 17u, 32u, 33u, 40u, 64u, 65u, 100u})
            for (double a : {0.5, 1., -1.125})
                for (double b : {a, -0.875, 1.25}) {
                    dvec in(ar);
                    for (unsigned i = 0; i < ar; ++i) in[i] = i % 2u ? b : a;
                    test(in);
                    for (unsigned i = 0; i < ar; ++i)
                        for (double c : {0., -2.5, 7.}) {
                            dvec y(in);
                            y[i] = c;
                            test(y);
                        }
                    if (ar < 20u) dual(in);
                }
        std::vector<std::string> sy;
        std::map<std::string, double> env;
        dvec in;
        for (unsigned i = 0; i < 33u; ++i) {
            sy.push_back("x" + std::to_string(i));
            in.push_back(i % 2u ? 0.5 + 0.03125 * i : -1. - 0.0625 * i);
            env[sy.back()] = in.back();
        }
        std::string f = k(sy), err;
        double p = 0;
        try {
            p = symb::eval(f, env);
        } catch (const std::exception &e) {
            err = e.what();
        }
        mc::check(err.empty() && (agrees(p, want(in)) || !std::isfinite(p)), "printed", [&]() { return f + " = " + mc::str(p) + " expected " + mc::str(want(in)) + " " + err; });
        ++mc::rep().states;
        ++mc::rep().traces;
    }
}

// ---- derivatives ----
static bool kinked(const std::string &n)
{
    return n == "ReLu" || n == "ELU" || n == "abs" || n == "step" || n == "psqrt";
}
static void derivatives()
{
    static const dvec G{0.75, -1.5, 2.25, -0.4};
    static const dvec P{0.75, 1.5, 2.25, 0.4}; // positive, for log and roots
    for (auto &name : ref::kernel_names()) {
        if (name == "pdiv") continue;
        auto f = ref::kernel_by_name(name);
        for (unsigned ar : {1u, 2u, 3u, 8u, 13u}) {
            if (!mc::begin("derivatives " + name + " arity " + std::to_string(ar))) continue;
            kernel<audi::gdual_d> k = kernel_set<audi::gdual_d>({name})[0];
            kernel<audi::gdual_v> kv = kernel_set<audi::gdual_v>({name})[0];
            const dvec &g = (name == "log" || name == "sqrt") ? P : G;
            auto each = [&](const std::function<void(const uvec &)> &go) {
                if (ar <= 3u) mc::product(std::vector<unsigned>(ar, 4u), go);
                else
                    for (unsigned t = 0; t < 6u; ++t) {
                        uvec ix(ar);
                        for (unsigned i = 0; i < ar; ++i) ix[i] = (i * (t + 1u) + t + i / 4u) % 4u;
                        go(ix);
                    }
            };
            each([&](const uvec &ix) {
                dvec x, z; // the vectorized duals hold two different points
                for (auto i : ix) x.push_back(g[i]), z.push_back(g[(i + 1u) % 4u]);
                auto near = [&](const dvec &v) { double s = 0; for (auto q : v) s += q; return kinked(name) && std::abs(s) < 0.1; };
                if (near(x) || near(z)) return;
                std::vector<audi::gdual_d> in;
                std::vector<audi::gdual_v> inv;
                for (unsigned i = 0; i < ar; ++i) {
                    in.emplace_back(x[i], "x" + std::to_string(i), 2u);
                    inv.emplace_back(std::vector<double>{x[i], z[i]}, "x" + std::to_string(i), 2u);
                }
                auto y = k(in);
                auto yv = kv(inv);
                dvec base(x);
                ++mc::rep().transitions;
                auto at = [&](unsigned i, double hi, unsigned j, double hj) {
                    dvec q(base);
                    q[i] += hi;
                    q[j] += hj;
                    return f(q);
                };
                auto get = [&](std::vector<unsigned> d, unsigned vec, bool &ok) -> double {
                    // derivative by symbol name; a missing symbol means the result does not depend on it
                    std::unordered_map<std::string, unsigned> m;
                    ok = true;
                    const auto &ss = vec ? yv.get_symbol_set() : y.get_symbol_set();
                    for (unsigned i = 0; i < ar; ++i) {
                        if (d[i] == 0u) continue;
                        if (std::find(ss.begin(), ss.end(), "dx" + std::to_string(i)) == ss.end()) return 0.;
                        m["d" + ("x" + std::to_string(i))] = d[i];
                    }
                    if (!vec) return y.get_derivative(m);
                    auto c = yv.get_derivative(m);
                    ok = c.size() >= 1u;
                    return c.size() > 1u ? c[vec - 1u] : ok ? c[0] : 0.;
                };
                for (unsigned vec = 0; vec < 3u; ++vec)
                for (unsigned i = 0; i < ar; ++i) {
                    base = vec == 2u ? z : x;
                    double h = 1e-4;
                    // 4th order central difference
                    double d1 = (8. * (at(i, h, i, 0) - at(i, -h, i, 0)) - (at(i, 2 * h, i, 0) - at(i, -2 * h, i, 0))) / (12. * h);
                    {
                        std::vector<unsigned> d(ar, 0u);
                        d[i] = 1u;
                        bool ok;
                        double got = get(d, vec, ok);
                        mc::check(ok && mc::close(got, d1, 1e-6, 1e-7), "first", [&]() { return name + mc::str(base) + " d/dx" + std::to_string(i) + " = " + mc::str(got) + " expected " + mc::str(d1) + (vec ? " (vectorized)" : ""); });
                    }
                    for (unsigned j = i; j < ar; ++j) {
                        double H = 1e-3, d2;
                        if (i == j) d2 = (-at(i, 2 * H, i, 0) + 16 * at(i, H, i, 0) - 30 * f(base) + 16 * at(i, -H, i, 0) - at(i, -2 * H, i, 0)) / (12 * H * H);
                        else {
                            auto cr = [&](double q) { return (at(i, q, j, q) - at(i, q, j, -q) - at(i, -q, j, q) + at(i, -q, j, -q)) / (4 * q * q); };
                            d2 = (4. * cr(H) - cr(2 * H)) / 3.;
                        }
                        {
                            std::vector<unsigned> d(ar, 0u);
                            d[i] += 1u;
                            d[j] += 1u;
                            bool ok;
                            double got = get(d, vec, ok);
                            mc::check(ok && mc::close(got, d2, 2e-4, 2e-5), "second", [&]() { return name + mc::str(base) + " d2/dx" + std::to_string(i) + "dx" + std::to_string(j) + " = " + mc::str(got) + " expected " + mc::str(d2) + (vec ? " (vectorized)" : ""); });
                        }
                    }
                }
                mc::outcome(name + mc::str(y.constant_cf()));
            });
            ++mc::rep().states;
            ++mc::rep().traces;
        }
    }
}

// ---- kernel sets ----
template <int TS>
struct fn {
    double operator()(const dvec &v) const
    {
        return v[0] + TS;
    }
    thread_safety get_thread_safety() const
    {
        return TS == 0 ? thread_safety::none : TS == 1 ? thread_safety::basic : thread_safety::constant;
    }
};
template <int TS>
struct pf {
    std::string operator()(const std::vector<std::string> &v) const
    {
        return v[0] + std::to_string(TS);
    }
    thread_safety get_thread_safety() const
    {
        return TS == 0 ? thread_safety::none : TS == 1 ? thread_safety::basic : thread_safety::constant;
    }
};
template <typename T>
static bool same_kernel(const kernel<T> &a, const kernel<T> &b)
{
    return a.get_name() == b.get_name() && a.get_thread_safety() == b.get_thread_safety() && a(std::vector<std::string>{"p", "q"}) == b(std::vector<std::string>{"p", "q"});
}
static void custom_sets()
{
    if (!mc::begin("thread safety of kernels")) return;
    auto one = [&](auto f, auto p) {
        kernel<double> k(f, p, "user");
        auto want = std::min(f.get_thread_safety(), p.get_thread_safety());
        mc::check(k.get_thread_safety() == want, "thread-safety", [&]() { return "kernel " + std::to_string(int(k.get_thread_safety())) + " expected " + std::to_string(int(want)); });
        kernel<double> c(k), m(std::move(c)), d;
        d = m;
        mc::check(d.get_thread_safety() == want && m.get_thread_safety() == want && d.get_name() == "user" && mc::str(d) == "user", "copy", []() { return std::string("copied kernel"); });
        mc::check(d(dvec{1.}) == f(dvec{1.}) && d(std::vector<std::string>{"z"}) == p(std::vector<std::string>{"z"}), "copy", []() { return std::string("copied kernel"); });
        ++mc::rep().transitions;
    };
    auto two = [&](auto f) {
        one(f, pf<0>());
        one(f, pf<1>());
        one(f, pf<2>());
    };
    two(fn<0>());
    two(fn<1>());
    two(fn<2>());
    kernel<double> lam([](const dvec &v) { return v[0]; }, [](const std::vector<std::string> &v) { return v[0]; }, "lam");
    mc::check(lam.get_thread_safety() == thread_safety::basic, "thread-safety", []() { return std::string("lambda"); });
    kernel<double> def;
    mc::check(def.get_thread_safety() == thread_safety::basic, "thread-safety", []() { return std::string("default constructed"); });
    ++mc::rep().states;
    ++mc::rep().traces;
}
template <typename T>
static void sets(const char *tag)
{
    const bool dbl = std::is_same<T, double>::value;
    if (mc::begin(std::string("names ") + tag)) {
        std::set<std::string> good(ref::kernel_names().begin(), ref::kernel_names().end()), cand{"", " ", "x", "relu", "elu", "unknown", "sin_", "pdiv", "p", "_nu"};
        if (!dbl) good.erase("pdiv");
        for (auto &n : ref::kernel_names()) {
            cand.insert(n);
            cand.insert(n + " ");
            cand.insert(" " + n);
            cand.insert(n + n);
            cand.insert(n.substr(1));
            cand.insert(n.substr(0, n.size() - 1));
            cand.insert("my_" + n);
            for (std::size_t i = 0; i < n.size(); ++i) {
                std::string q(n);
                q[i] = static_cast<char>(q[i] ^ 0x20);
                cand.insert(q);
            }
        }
        for (auto &n : cand) {
            ++mc::rep().transitions;
            kernel_set<T> ks({"sum", "mul"});
            std::string o = mc::outcome_of([&]() { ks.push_back(n); });
            mc::check(o == (good.count(n) ? "" : "invalid_argument"), "name", [&]() { return "push_back('" + n + "') -> '" + o + "'"; });
            mc::check(ks().size() == (good.count(n) ? 3u : 2u) && ks()[0].get_name() == "sum" && ks()[1].get_name() == "mul", "name-state", [&]() { return n; });
            if (good.count(n)) mc::check(ks[2].get_name() == n, "name-state", [&]() { return n; });
            o = mc::outcome_of([&]() { kernel_set<T> q({"sin", n}); });
            mc::check(o == (good.count(n) ? "" : "invalid_argument"), "name", [&]() { return "constructor with '" + n + "' -> '" + o + "'"; });
        }
        ++mc::rep().states;
        ++mc::rep().traces;
    }
    // all sequences of operations
    struct step {
        std::string what;
        int kind; // 0 name, 1 kernel, 2 clear, 3 bad name
    };
    std::vector<step> ops{{"sum", 0}, {"tanh", 0}, {"user1", 1}, {"user2", 1}, {"", 2}, {"nope", 3}};
    if (mc::begin(std::string("sequences ") + tag)) {
        auto user = [](const std::string &n) { return kernel<T>([n](const std::vector<T> &v) { return v[0]; }, [n](const std::vector<std::string> &v) { return n + v[0]; }, n); };
        for (unsigned len = 0; len <= 5u; ++len) {
            mc::product(std::vector<unsigned>(len, static_cast<unsigned>(ops.size())), [&](const uvec &ix) {
                kernel_set<T> ks;
                std::vector<std::string> m;
                for (auto i : ix) {
                    auto &o = ops[i];
                    ++mc::rep().transitions;
                    if (o.kind == 0) ks.push_back(o.what), m.push_back(o.what);
                    if (o.kind == 1) ks.push_back(user(o.what)), m.push_back(o.what);
                    if (o.kind == 2) ks.clear(), m.clear();
                    if (o.kind == 3) mc::check(mc::outcome_of([&]() { ks.push_back(o.what); }) == "invalid_argument", "name", []() { return std::string("nope"); });
                }
                kernel_set<T> cp(ks);
                ks.push_back("mul");
                auto got = cp();
                bool ok = got.size() == m.size();
                for (std::size_t i = 0; ok && i < m.size(); ++i) {
                    ok = got[i].get_name() == m[i] && cp[i].get_name() == m[i] && same_kernel(got[i], cp[i]);
                    std::string pr = got[i](std::vector<std::string>{"a"});
                    ok = ok && pr == (m[i] == "sum" ? "(a)" : m[i] == "tanh" ? "tanh(a)" : m[i] + "a");
                }
                mc::check(ok, "sequence", [&]() { return mc::str(ix) + " gives " + mc::str(cp) + " expected " + mc::str(m); });
                ++mc::rep().traces;
                mc::outcome(mc::str(m));
            });
            mc::alive();
        }
        ++mc::rep().states;
    }
}

#if MODE == 5
// ---- serialization ----
template <typename T>
static T val(double d);
template <>
double val<double>(double d)
{
    return d;
}
template <>
audi::gdual_d val<audi::gdual_d>(double d)
{
    return audi::gdual_d(d);
}
template <>
audi::gdual_v val<audi::gdual_v>(double d)
{
    return audi::gdual_v(std::vector<double>{d, d + 0.25});
}
static dvec num(double d)
{
    return {d};
}
static dvec num(const audi::gdual_d &d)
{
    return {d.constant_cf()};
}
static dvec num(const audi::gdual_v &d)
{
    auto c = d.constant_cf();
    return dvec(c.begin(), c.end());
}
template <typename OA, typename IA, typename X>
static void roundtrip(const X &x, X &y)
{
    std::stringstream ss;
    {
        OA a(ss);
        a << x;
    }
    {
        IA a(ss);
        a >> y;
    }
}
template <typename T, typename OA, typename IA>
static void serialization(const std::string &tag)
{
    std::vector<std::string> names(ref::kernel_names());
    if (!std::is_same<T, double>::value) names.erase(std::find(names.begin(), names.end(), "pdiv"));
    auto behaves = [&](const kernel<T> &a, const kernel<T> &b) {
        std::vector<T> in{val<T>(0.5), val<T>(1.75), val<T>(3.)};
        return same_kernel(a, b) && mc::same_bits(num(a(in)), num(b(in)));
    };
    for (auto &n : names) {
        if (!mc::begin("serialize " + tag + " " + n)) continue;
        kernel<T> k = kernel_set<T>({n})[0];
        for (auto &into : {std::string(""), std::string("sum"), std::string("exp")}) {
            kernel<T> r;
            if (!into.empty()) r = kernel_set<T>({into})[0];
            kernel<T> keep(k);
            roundtrip<OA, IA>(k, r);
            ++mc::rep().transitions;
            mc::check(behaves(k, r) && behaves(k, keep), "kernel", [&]() { return "restored " + r.get_name() + " " + r(std::vector<std::string>{"p", "q"}) + " safety " + std::to_string(int(r.get_thread_safety())); });
            kernel<T> again;
            roundtrip<OA, IA>(r, again);
            mc::check(behaves(k, again), "kernel", []() { return std::string("second round trip"); });
            if (into.empty()) {
                // whatever memory the restored kernel lives in
                alignas(kernel<T>) unsigned char mem[sizeof(kernel<T>)];
                for (int fill : {0x00, 0x01, 0x02, 0xff}) {
                    std::memset(mem, fill, sizeof mem);
                    auto *p = new (mem) kernel<T>;
                    roundtrip<OA, IA>(k, *p);
                    mc::check(static_cast<int>(p->get_thread_safety()) == static_cast<int>(k.get_thread_safety()), "kernel", [&]() { return "restored thread safety " + std::to_string(int(p->get_thread_safety())); });
                    p->~kernel<T>();
                }
            }
        }
        ++mc::rep().states;
        ++mc::rep().traces;
    }
    if (mc::begin("serialize sets " + tag)) {
        for (auto &a : names)
            for (auto &b : names) {
                kernel_set<T> s({a, b, a}), r({"cos"});
                roundtrip<OA, IA>(s, r);
                bool ok = r().size() == 3u;
                for (unsigned i = 0; ok && i < 3u; ++i) ok = behaves(s[i], r[i]);
                ++mc::rep().transitions;
                mc::check(ok, "set", [&]() { return a + "," + b; });
            }
        kernel_set<T> e, r({"cos"});
        roundtrip<OA, IA>(e, r);
        mc::check(r().empty(), "set", []() { return std::string("empty set"); });
        ++mc::rep().states;
        ++mc::rep().traces;
    }
}
template <int TS>
struct sfn : fn<TS> {
    template <typename A>
    void serialize(A &, unsigned)
    {
    }
};
template <int TS>
struct spf : pf<TS> {
    template <typename A>
    void serialize(A &, unsigned)
    {
    }
};
DCGP_S11N_FUNCTION_EXPORT(k_sfn0, sfn<0>, double, const std::vector<double> &)
DCGP_S11N_FUNCTION_EXPORT(k_sfn1, sfn<1>, double, const std::vector<double> &)
DCGP_S11N_FUNCTION_EXPORT(k_sfn2, sfn<2>, double, const std::vector<double> &)
DCGP_S11N_FUNCTION_EXPORT(k_spf0, spf<0>, std::string, const std::vector<std::string> &)
DCGP_S11N_FUNCTION_EXPORT(k_spf1, spf<1>, std::string, const std::vector<std::string> &)
DCGP_S11N_FUNCTION_EXPORT(k_spf2, spf<2>, std::string, const std::vector<std::string> &)
template <typename OA, typename IA>
static void user_serialization(const std::string &tag)
{
    if (!mc::begin("serialize user kernels " + tag)) return;
    auto one = [&](auto f, auto p) {
        kernel<double> k(f, p, "user"), r = kernel_set<double>({"sum"})[0], d;
        roundtrip<OA, IA>(k, r);
        roundtrip<OA, IA>(k, d);
        auto want = std::min(f.get_thread_safety(), p.get_thread_safety());
        ++mc::rep().transitions;
        for (auto *q : {&r, &d}) mc::check(q->get_thread_safety() == want && q->get_name() == "user" && (*q)(dvec{2.}) == f(dvec{2.}) && (*q)(std::vector<std::string>{"z"}) == p(std::vector<std::string>{"z"}), "user", [&]() { return "restored safety " + std::to_string(int(q->get_thread_safety())) + " expected " + std::to_string(int(want)); });
    };
    auto two = [&](auto f) {
        one(f, spf<0>());
        one(f, spf<1>());
        one(f, spf<2>());
    };
    two(sfn<0>());
    two(sfn<1>());
    two(sfn<2>());
    ++mc::rep().states;
    ++mc::rep().traces;
}

#endif
int main(int argc, char **argv)
{
    return mc::main(argc, argv, []() {
#if MODE == 1
        values();
#elif MODE == 2
        derivatives();
        mc::sample("tanh of every triple of {0.75,-1.5,2.25,-0.4}: all first and second partial derivatives, scalar and vectorized");
#elif MODE == 4
        custom_sets();
        sets<double>("double");
        sets<audi::gdual_d>("gdual_d");
        sets<audi::gdual_v>("gdual_v");
        mc::sample("every sequence of <= 5 of {add sum, add tanh, add user1, add user2, clear, add unknown} vs a list");
#else
        using boost::archive::binary_iarchive;
        using boost::archive::binary_oarchive;
        using boost::archive::text_iarchive;
        using boost::archive::text_oarchive;
        serialization<double, text_oarchive, text_iarchive>("double text");
        serialization<double, binary_oarchive, binary_iarchive>("double binary");
        serialization<audi::gdual_d, text_oarchive, text_iarchive>("gdual_d text");
        serialization<audi::gdual_d, binary_oarchive, binary_iarchive>("gdual_d binary");
        serialization<audi::gdual_v, text_oarchive, text_iarchive>("gdual_v text");
        serialization<audi::gdual_v, binary_oarchive, binary_iarchive>("gdual_v binary");
        user_serialization<text_oarchive, text_iarchive>("text");
        user_serialization<binary_oarchive, binary_iarchive>("binary");
        mc::sample("each built-in kernel x 3 numeric types x 2 archive formats x 3 targets");
#endif
    });
}
