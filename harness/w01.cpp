// W01: a weighted expression computes and prints the composition in which every connection is multiplied by its own weight.
#include "common.hpp"
#include "net.hpp"
#include <dcgp/expression_weighted.hpp>
using namespace hc;
using dcgp::expression_weighted;
inline double cf(double v) { return v; }
template <typename T>
double cf(const T &v) { return v.constant_cf(); }
template <typename T>
std::vector<T> conv(const dvec &v)
{
    std::vector<T> r;
    for (double q : v) r.push_back(T(q));
    return r;
}
template <typename T>
dvec back(const std::vector<T> &v)
{
    dvec r;
    for (auto &q : v) r.push_back(cf(q));
    return r;
}
static dvec weights(unsigned k, unsigned n)
{
    dvec w;
    for (unsigned i = 0; i < n; ++i) w.push_back(k == 0u ? 1. : k == 1u ? 0.5 + 0.25 * (i % 16u) - 0.75 * (i % 3u) : (i % 2u ? -1.25 : 0.) + 0.125 * (i % 20u));
    return w;
}
static dvec point(unsigned k, unsigned n)
{
    dvec p;
    for (unsigned i = 0; i < n; ++i) p.push_back(k == 0u ? 0.3 + 0.45 * i : -1.2 + 0.7 * i);
    return p;
}
// everything observable agrees with the model (x, w)
template <typename T>
std::string wrong(const expression_weighted<T> &e, const shape &s, const uvec &x, const dvec &w, const std::vector<ref::fun> &f, bool symbolic = true)
{
    if (uvec(e.get().begin(), e.get().end()) != x) return "chromosome is " + mc::str(e.get()) + " instead of " + mc::str(x);
    auto c = inconsistent(e, s);
    if (!c.empty()) return c;
    if (back(e.get_weights()) != w) return "weights are " + mc::str(back(e.get_weights())) + " instead of " + mc::str(w);
    for (unsigned node = s.n; node < s.nodes(); ++node)
        for (unsigned j = 0; j < s.ar(node); ++j) {
            double g = cf(e.get_weight(node, j));
            if (g != w[ref::first_weight(s, node) + j]) return "get_weight(" + std::to_string(node) + "," + std::to_string(j) + ") is " + mc::str(g);
        }
    std::vector<std::string> names;
    for (unsigned i = 0; i < s.n; ++i) names.push_back("x" + std::to_string(i));
    std::vector<std::string> sy;
    if (symbolic) sy = e(names);
    const expression<T> &base = e;
    for (unsigned k = 0; k < 2u; ++k) {
        const auto p = point(k, s.n);
        const auto want = ref::weval(s, x, p, f, w);
        const auto got = back(e(conv<T>(p))), got2 = back(base(conv<T>(p)));
        if (!mc::close(got, want, 1e-11, 1e-12)) return "value at " + mc::str(p) + " is " + mc::str(got) + " instead of " + mc::str(want);
        if (!mc::same_bits(got, got2)) return "value through the base class differs";
        if (!symbolic) continue;
        std::map<std::string, double> env;
        for (unsigned i = 0; i < s.n; ++i) env[names[i]] = p[i];
        for (unsigned node = s.n; node < s.nodes(); ++node)
            for (unsigned j = 0; j < s.ar(node); ++j) env["w" + std::to_string(node) + "_" + std::to_string(j)] = w[ref::first_weight(s, node) + j];
        if (sy.size() != s.m) return "number of formulas";
        for (unsigned o = 0; o < s.m; ++o) {
            if (!std::isfinite(want[o])) continue;
            double v = 0;
            try {
                v = symb::eval(sy[o], env);
            } catch (const std::exception &q) {
                return std::string("formula ") + sy[o] + ": " + q.what();
            }
            if (!mc::close(v, want[o], 1e-8, 1e-9)) return "formula " + sy[o] + " is " + mc::str(v) + " at " + mc::str(p) + " instead of " + mc::str(want[o]);
        }
    }
    return "";
}
template <typename T>
void addressing(expression_weighted<T> &e, const shape &s, const uvec &x, const std::vector<ref::fun> &f)
{
    dvec w = weights(1u, ref::n_weights(s));
    e.set_weights(conv<T>(w));
    std::vector<unsigned> ids, js;
    for (unsigned i = 0; i < s.nodes() + 3u; ++i) ids.push_back(i);
    ids.push_back(~0u);
    ids.push_back(1u << 31);
    for (unsigned j = 0; j < 6u; ++j) js.push_back(j);
    js.push_back(~0u);
    for (auto id : ids)
        for (auto j : js) {
            const bool ok = id >= s.n && id < s.nodes() && j < s.ar(id);
            double v = 7. + id % 16u + 0.0625 * (j % 8u);
            auto o = mc::outcome_of([&]() { e.set_weight(id, j, T(v)); });
            if (ok) w[ref::first_weight(s, id) + j] = v;
            mc::check(o == (ok ? "" : "invalid_argument"), "set_weight", [&]() { return s.str() + " (" + std::to_string(id) + "," + std::to_string(j) + "): '" + o + "'"; });
            double r = 0;
            o = mc::outcome_of([&]() { r = cf(e.get_weight(id, j)); });
            mc::check(o == (ok ? "" : "invalid_argument") && (!ok || r == v), "get_weight", [&]() { return s.str() + " (" + std::to_string(id) + "," + std::to_string(j) + "): '" + o + "' " + mc::str(r); });
            auto q = wrong(e, s, x, w, f, false);
            mc::check(q.empty(), "after-set_weight", [&]() { return s.str() + " (" + std::to_string(id) + "," + std::to_string(j) + "): " + q; });
            ++mc::rep().transitions;
        }
    for (unsigned n = 0; n < w.size() + 3u; ++n) {
        if (n == w.size()) continue;
        auto o = mc::outcome_of([&]() { e.set_weights(std::vector<T>(n, T(5.))); });
        mc::check(o == "invalid_argument", "set_weights", [&]() { return std::to_string(n) + " weights: '" + o + "'"; });
    }
    for (unsigned n = 0; n < s.n + 3u; ++n) {
        if (n == s.n) continue;
        auto o = mc::outcome_of([&]() { e(std::vector<T>(n, T(5.))); });
        auto o2 = mc::outcome_of([&]() { e(std::vector<std::string>(n, "x")); });
        mc::check(o == "invalid_argument" && o2 == o, "input-size", [&]() { return std::to_string(n) + " inputs: '" + o + "' '" + o2 + "'"; });
    }
    auto q = wrong(e, s, x, w, f);
    mc::check(q.empty(), "after-refusals", [&]() { return s.str() + ": " + q; });
}
template <typename T>
void values(const std::string &type, const shape &s, const std::vector<std::string> &ks, unsigned cap, bool big = false)
{
    if (!mc::begin(type + " " + s.str() + " " + ks[0] + "," + ks[1])) return;
    const auto f = ref_kernels(ks);
    bool uniform = true;
    for (auto a : s.arity) uniform = uniform && a == s.arity[0];
    expression_weighted<T> e(s.n, s.m, s.r, s.c, s.l, s.arity, kernels<T>(ks), 1u);
    unsigned count = 0;
    auto body = [&](const uvec &x) {
        mc::alive();
        e.set(x);
        ++mc::rep().states;
        for (unsigned k = 0; k < 3u; ++k) {
            const auto w = weights(k, ref::n_weights(s));
            e.set_weights(conv<T>(w));
            auto q = wrong(e, s, x, w, f, ks[0] != "pdiv"); // the fallback of the protected division is not printed
            mc::check(q.empty(), "value", [&]() { return mc::str(x) + " weights " + mc::str(w) + ": " + q; });
            ++mc::rep().transitions;
        }
        if (count++ % 200u == 0u) addressing(e, s, x, f);
        ++mc::rep().traces;
    };
    // default weights
    {
        expression_weighted<T> d(s.n, s.m, s.r, s.c, s.l, s.arity, kernels<T>(ks), 3u);
        expression<T> plain(s.n, s.m, s.r, s.c, s.l, s.arity, kernels<T>(ks), 0u, 3u);
        auto q = wrong(d, s, uvec(plain.get()), dvec(ref::n_weights(s), 1.), f, !big);
        mc::check(q.empty(), "default", [&]() { return q; });
        if (uniform) {
            expression_weighted<T> u(s.n, s.m, s.r, s.c, s.l, s.arity[0], kernels<T>(ks), 3u);
            q = wrong(u, s, uvec(plain.get()), dvec(ref::n_weights(s), 1.), f, !big);
            mc::check(q.empty(), "default-uniform", [&]() { return q; });
        }
    }
    if (big) {
        for (auto &x : ref::large_chromosomes(s, s.size() > 100u ? 41u : 11u, true)) body(x);
        mc::rep().counters["large shapes"]++;
        return;
    }
    if (ref::all_chromosomes(s, cap, body)) return;
    for (auto &b : ref::bases(s)) ref::near_chromosomes(s, b, mc::rep().thorough ? 2u : 1u, body);
    mc::rep().exhaustive = false;
}
// histories: weights stay with their connection position whatever happens to the chromosome, and copies are independent
template <typename T>
void histories(const std::string &type, const shape &s, const std::vector<std::string> &ks, unsigned depth)
{
    using W = expression_weighted<T>;
    const auto f = ref_kernels(ks);
    struct st {
        W e;
        uvec x;
        dvec w;
    };
    struct op {
        std::string name;
        std::function<void(st &)> run;
    };
    const unsigned nw = ref::n_weights(s);
    const auto B = ref::bases(s);
    std::vector<op> O;
    for (unsigned i = 0; i < B.size(); ++i) O.push_back({"set" + std::to_string(i), [&B, i](st &t) { t.e.set(B[i]); t.x = B[i]; }});
    for (unsigned k = 0; k < 2u; ++k) O.push_back({"ws" + std::to_string(k), [k, nw](st &t) { t.w = weights(k + 1u, nw); t.e.set_weights(conv<T>(t.w)); }});
    O.push_back({"w first", [&s](st &t) { t.e.set_weight(s.n, 0u, T(2.5)); t.w[0] = 2.5; }});
    O.push_back({"w last", [&s, nw](st &t) { t.e.set_weight(s.nodes() - 1u, s.arity.back() - 1u, T(-2.5)); t.w[nw - 1u] = -2.5; }});
    O.push_back({"mutate", [](st &t) { t.e.mutate_random(3u); t.x = uvec(t.e.get()); }});
    O.push_back({"active", [](st &t) { t.e.mutate_active(2u); t.x = uvec(t.e.get()); }});
    O.push_back({"fgene", [&s](st &t) { t.e.set_f_gene(s.nodes() - 1u, 1u); t.x[s.gene(s.nodes() - 1u)] = 1u; }});
    O.push_back({"copy", [](st &t) { W c(t.e); c.set_weight(c.get_n(), 0u, T(99.)); c.mutate_random(5u); }});
    O.push_back({"assign", [](st &t) { W c; c = t.e; t.e = W(); t.e = c; }});
    O.push_back({"move", [](st &t) { W c(std::move(t.e)); t.e = std::move(c); }});
    for (unsigned i = 0; i < O.size(); ++i)
        for (unsigned j = 0; j < (depth > 3u ? O.size() : 1u); ++j) {
            if (!mc::begin(type + " history " + s.str() + " " + O[i].name + (depth > 3u ? "," + O[j].name : ""))) continue;
            std::vector<unsigned> fix{i};
            if (depth > 3u) fix.push_back(j);
            mc::product(std::vector<unsigned>(depth - fix.size(), static_cast<unsigned>(O.size())), [&](const uvec &v) {
                st t{W(s.n, s.m, s.r, s.c, s.l, s.arity, kernels<T>(ks), 5u), {}, dvec(nw, 1.)};
                t.x = uvec(t.e.get());
                std::vector<unsigned> seq(fix);
                seq.insert(seq.end(), v.begin(), v.end());
                std::string d;
                for (auto k : seq) {
                    O[k].run(t);
                    d += O[k].name + ";";
                    auto q = wrong(t.e, s, t.x, t.w, f);
                    ++mc::rep().transitions;
                    if (!mc::check(q.empty(), "history", [&]() { return d + " " + q; })) break;
                }
                ++mc::rep().traces;
            });
            ++mc::rep().states;
            mc::alive();
        }
}
int main(int argc, char **argv)
{
    return mc::main(argc, argv, []() {
        const bool th = mc::rep().thorough;
        using gd = audi::gdual_d;
        const std::vector<std::vector<std::string>> K{{"sum", "diff"}, {"mul", "div"}, {"sin", "tanh"}, {"sig", "ReLu"}, {"ELU", "ISRU"}, {"sin_nu", "cos_nu"}, {"gaussian_nu", "inv_sum"}, {"abs", "step"}, {"cos", "exp"}, {"gaussian", "psqrt"}, {"pdiv", "log"}, {"sqrt", "sum"}};
        // shapes: arity mixes per column, several rows (so that the weight index of a node is not obvious)
        std::vector<shape> sh{{1, 1, 1, 1, 1, {1}, 2}, {2, 1, 1, 1, 1, {3}, 2}, {1, 1, 2, 1, 1, {2}, 2}, {2, 2, 1, 2, 2, {1, 2}, 2}, {1, 2, 2, 2, 3, {2, 1}, 2}, {2, 1, 2, 2, 1, {1, 3}, 2}, {2, 2, 3, 2, 3, {2, 3}, 2}, {3, 1, 1, 3, 4, {2, 1, 3}, 2}, {1, 1, 2, 3, 2, {3, 1, 2}, 2}};
        const unsigned cap = th ? 60000u : 3000u;
        for (auto &s : sh)
            for (std::size_t t = 0; t < K.size(); ++t) {
                if (!th && t > 2u && s.size() > 8u && (t + s.size()) % 3u) continue;
                if (K[t][0] == "pdiv") {
                    bool un = false; // pdiv needs two inputs
                    for (auto a : s.arity) un = un || a < 2u;
                    if (un) continue;
                }
                values<double>("double", s, K[t], cap);
                if (s.size() < 8u && K[t][0] != "pdiv") values<gd>("gdual", s, K[t], 400u);
            }
        for (auto &s : ref::large(2u)) {
            if (s.r * s.c == 100u) continue; // formulas not linear in the number of nodes
            values<double>("large double", s, {"tanh", "diff"}, 0u, true);
            values<double>("large double", s, {"sum", "sin_nu"}, 0u, true);
            if (s.size() < 60u) values<gd>("large gdual", s, {"diff", "sin_nu"}, 0u, true);
        }
        for (auto &s : {shape{2, 2, 2, 2, 3, {2, 1}, 2}, shape{1, 2, 1, 3, 2, {1, 3, 2}, 2}}) {
            histories<double>("double", s, {"sum", "sin"}, th ? 4u : 3u);
            histories<gd>("gdual", s, {"mul", "diff"}, th ? 3u : 2u);
        }
    });
}
