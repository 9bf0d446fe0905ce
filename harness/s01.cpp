// The symbolic regression problem.
// MODE 1 = S01: fitness, complexity, predictions and formula are functions of the decision vector (and the correction) alone.
// MODE 2 = S02: gradients and Hessians are the exact derivatives of the loss with respect to the constants.
// MODE 3 = S03: construction, bounds, dimensions, thread safety; use through pagmo::problem.
#include "common.hpp"
#include "symb.hpp"
#include "jet.hpp"
#include <dcgp/problems/symbolic_regression.hpp>
#include <pagmo/problem.hpp>
#include <pagmo/utils/constrained.hpp>
using namespace hc;
using SR = dcgp::symbolic_regression;
using dmat = std::vector<dvec>;
using names_t = std::vector<std::string>;

struct conf {
    unsigned n, m, r, c, l, a, eph;
    names_t k;
    bool mo, ce;
    unsigned par;
    shape s() const { return shape(n + eph, m, r, c, l, uvec(c, a), static_cast<unsigned>(k.size())); }
    std::string str() const { return s().str() + " eph" + std::to_string(eph) + mc::str(k) + (mo ? " mo" : "") + (ce ? " CE" : "") + (par ? " par" + std::to_string(par) : ""); }
};
static void data(const conf &q, unsigned size, dmat &P, dmat &L)
{
    static const double V[] = {0.7, -0.4, 1.3, 0., 2.1, -1.6, 0.25, -0.9};
    for (unsigned i = 0; i < size; ++i) {
        dvec p, y;
        for (unsigned j = 0; j < q.n; ++j) p.push_back(V[(i + 3u * j) % 8u]);
        if (q.ce) {
            y.assign(q.m, 0.);
            if (i == 2u) y.assign(q.m, 1. / q.m);
            else y[i % q.m] = 1.;
        } else {
            for (unsigned j = 0; j < q.m; ++j) y.push_back(V[(2u * i + j + 5u) % 8u] * 0.5);
        }
        P.push_back(p);
        L.push_back(y);
    }
}
static SR make(const conf &q, const dmat &P, const dmat &L, unsigned seed = 1u)
{
    return SR(P, L, q.r, q.c, q.l, q.a, kernels(q.k), q.eph, q.mo, q.par, q.ce ? "CE" : "MSE", seed);
}
static dvec constants(unsigned k, unsigned n)
{
    dvec c;
    for (unsigned i = 0; i < n; ++i) c.push_back(k == 0u ? 0.8 - 0.35 * i : k == 1u ? -1.1 + 0.6 * i : k == 2u ? 0. : 2.5 - i);
    return c;
}
static dvec vec(const dvec &c, const uvec &x)
{
    dvec v(c);
    v.insert(v.end(), x.begin(), x.end());
    return v;
}
static double ref_loss(const dvec &o, const dvec &y, bool ce)
{
    long double r = 0;
    if (!ce) {
        for (std::size_t i = 0; i < o.size(); ++i) r += (static_cast<long double>(o[i]) - y[i]) * (static_cast<long double>(o[i]) - y[i]);
        return static_cast<double>(r / o.size());
    }
    long double mx = *std::max_element(o.begin(), o.end()), s = 0;
    for (double v : o) s += std::exp(static_cast<long double>(v) - mx);
    for (std::size_t i = 0; i < o.size(); ++i)
        if (y[i] != 0.) r -= y[i] * (static_cast<long double>(o[i]) - mx - std::log(s));
    return static_cast<double>(r);
}
// the corrections of the model: 0 none
static dvec corrected(unsigned pc, const dvec &in, const std::function<dvec(const dvec &)> &g)
{
    dvec y = g(in);
    if (pc == 1u) for (auto &v : y) v = 2. * v + in[0];
    if (pc == 2u) {
        dvec z = in;
        for (auto &v : z) v = -v;
        auto w = g(z);
        for (unsigned i = 0; i < y.size(); ++i) y[i] = y[i] - w[i] + 0.5;
    }
    return y;
}
template <typename T>
std::vector<T> pc1(const std::vector<T> &in, std::function<std::vector<T>(const std::vector<T> &)> g)
{
    auto y = g(in);
    for (auto &v : y) v = 2. * v + in[0];
    return y;
}
template <typename T>
std::vector<T> pc2(const std::vector<T> &in, std::function<std::vector<T>(const std::vector<T> &)> g)
{
    auto y = g(in), z = in;
    for (auto &v : z) v = -1. * v;
    auto w = g(z);
    for (unsigned i = 0; i < y.size(); ++i) y[i] = y[i] - w[i] + 0.5;
    return y;
}
static void correct(SR &p, unsigned pc)
{
    if (pc == 0u) p.unset_phenotype_correction();
    if (pc == 1u) p.set_phenotype_correction(pc1<double>, pc1<audi::gdual_v>);
    if (pc == 2u) p.set_phenotype_correction(pc2<double>, pc2<audi::gdual_v>);
}
static bool same(double a, double b)
{
    if (!std::isfinite(a) || !std::isfinite(b)) return !std::isfinite(a) && !std::isfinite(b);
    return mc::close(a, b, 1e-9, 1e-10);
}
struct oracle {
    const conf &q;
    shape s;
    std::vector<ref::fun> f;
    const dmat &P, &L;
    oracle(const conf &c, const dmat &p, const dmat &l) : q(c), s(c.s()), f(ref_kernels(c.k)), P(p), L(l) {}
    dvec value(const dvec &c, const uvec &x, const dvec &p, unsigned pc) const
    {
        return corrected(pc, p, [&](const dvec &in) {
            dvec v(in);
            v.insert(v.end(), c.begin(), c.end());
            return s.eval(x, v, f);
        });
    }
    double loss(const dvec &c, const uvec &x, unsigned pc) const
    {
        double r = 0;
        for (unsigned i = 0; i < P.size(); ++i) {
            auto o = value(c, x, P[i], pc);
            for (double v : o) if (!std::isfinite(v)) return std::numeric_limits<double>::infinity();
            r += ref_loss(o, L[i], q.ce);
        }
        return r / static_cast<double>(P.size());
    }
};
// ---------------------------------------------------------------- S01
static std::string fitness_wrong(const oracle &o, const dvec &got, const dvec &c, const uvec &x, unsigned pc)
{
    double want = o.loss(c, x, pc);
    if (got.size() != 1u + o.q.mo) return std::to_string(got.size()) + " objectives";
    if (!same(got[0], want)) return "loss " + mc::str(got[0]) + " expected " + mc::str(want);
    if (o.q.mo && got[1] != static_cast<double>(o.s.active(x).second.size())) return "complexity " + mc::str(got[1]) + " expected " + std::to_string(o.s.active(x).second.size());
    return "";
}
static std::string pretty_wrong(const oracle &o, std::string s, const dvec &c, const uvec &x, const std::string &one_symbol = "")
{
    if (s.size() < 2u || s.front() != '[' || s.back() != ']') return "pretty is " + s;
    s = s.substr(1u, s.size() - 2u);
    std::vector<std::string> forms;
    std::size_t at = 0, p;
    while ((p = s.find(", ", at)) != std::string::npos) {
        forms.push_back(s.substr(at, p - at));
        at = p + 2u;
    }
    forms.push_back(s.substr(at));
    // pagmo's printing of a long list shows its first elements only
    if (o.s.m > 5u && forms.size() > 1u && forms.size() <= o.s.m && forms.back().find("...") == 0u) forms.pop_back();
    else if (forms.size() != o.s.m) return std::to_string(forms.size()) + " formulas in " + s;
    for (auto &in : {dvec{0.5, 1.25, 0.75, 2., -1.}, dvec{-0.5, 0.3, 1.5, 0.2, 0.9}}) {
        std::map<std::string, double> env;
        dvec v;
        for (unsigned i = 0; i < o.q.n; ++i) env["x" + std::to_string(i)] = in[i], v.push_back(in[i]);
        for (unsigned i = 0; i < c.size(); ++i) env["c" + std::to_string(i + 1u)] = c[i], v.push_back(c[i]);
        auto want = o.s.eval(x, v, o.f);
        for (unsigned k = 0; k < forms.size(); ++k) {
            double got;
            try {
                got = symb::eval(forms[k], env);
            } catch (const std::exception &e) {
                return forms[k] + ": " + e.what();
            }
            if (!std::isfinite(got) || std::abs(got) > 1e12) continue;
            if (!mc::close(got, want[k], 1e-8, 1e-9)) return forms[k] + " = " + mc::str(got) + " expected " + mc::str(want[k]);
        }
    }
    return "";
}
static void values(const conf &q, std::uint64_t cap, unsigned size = 4u, bool big = false)
{
    if (!mc::begin("values " + q.str() + (big ? " large " + std::to_string(size) : ""))) return;
    dmat P, L;
    data(q, size, P, L);
    if (big) // all points differ
        for (unsigned i = 0; i < size; ++i) P[i][0] += 0.001 * i;
    SR p = make(q, P, L);
    oracle o(q, P, L);
    auto one = [&](const uvec &x) {
        ++mc::rep().states;
        mc::alive();
        for (unsigned k = 0; k < (q.eph ? 3u : 1u); ++k) {
            auto c = constants(k, q.eph);
            auto v = vec(c, x);
            auto w = fitness_wrong(o, p.fitness(v), c, x, 0u);
            mc::check(w.empty(), "fitness", [&]() { return mc::str(v) + ": " + w; });
            ++mc::rep().transitions;
            if (k == 0u) {
                auto e = pretty_wrong(o, p.pretty(v), c, x);
                mc::check(e.empty(), "pretty", [&]() { return mc::str(v) + ": " + e; });
            }
            auto all = p.predict(P, v);
            bool ok = all.size() == P.size();
            for (unsigned i = 0; ok && i < P.size(); ++i) {
                auto want = o.value(c, x, P[i], 0u);
                auto got = p.predict(P[i], v);
                for (unsigned j = 0; j < q.m; ++j) ok = ok && got.size() == q.m && all[i].size() == q.m && same(got[j], want[j]) && same(all[i][j], want[j]);
            }
            mc::check(ok, "predict", [&]() { return mc::str(v); });
            // the derivatives asked in between must not change the fitness
            if (q.eph) {
                if (k % 2u) p.gradient(v);
                else p.hessians(v);
                auto w2 = fitness_wrong(o, p.fitness(v), c, x, 0u);
                mc::check(w2.empty(), "fitness-after-derivatives", [&]() { return mc::str(v) + ": " + w2; });
            }
        }
        ++mc::rep().traces;
    };
    if (big) {
        for (auto &x : ref::large_chromosomes(o.s, 41u, true)) one(x);
        mc::rep().counters["large problems"]++;
    } else if (ref::all_chromosomes(o.s, cap, one)) mc::rep().counters["shapes with every chromosome"]++;
    else for (auto &b : ref::bases(o.s)) ref::near_chromosomes(o.s, b, mc::rep().thorough ? 3u : 2u, one);
}
// every sequence of queries on one object
static void histories(const conf &q, unsigned depth)
{
    dmat P, L;
    data(q, 4u, P, L);
    oracle o(q, P, L);
    const auto B = ref::bases(o.s);
    struct dec {
        dvec c;
        uvec x;
    };
    std::vector<dec> X{{constants(0u, q.eph), B[1]}, {constants(2u, q.eph), B[1]}, {constants(0u, q.eph), B[2]}};
    enum { FIT, GRAD, HESS, PRETTY, PREDICT, KINDS };
    struct op {
        unsigned kind, x;
    };
    std::vector<op> O;
    for (unsigned k = 0; k < KINDS; ++k)
        for (unsigned i = 0; i < X.size(); ++i) O.push_back({k, i});
    for (unsigned i = 0; i < 3u; ++i) O.push_back({KINDS, i});     // corrections
    for (unsigned i = 0; i < 4u; ++i) O.push_back({KINDS + 1u, i}); // copies, assignments, moves
    auto show = [&](const op &p) {
        static const char *N[] = {"fitness", "gradient", "hessians", "pretty", "predict", "correction", "copy"};
        return std::string(N[p.kind]) + std::to_string(p.x) + " ";
    };
    // gradients of fresh objects, for comparison
    std::map<std::pair<unsigned, unsigned>, dvec> G, H;
    for (unsigned pc = 0; pc < 3u; ++pc)
        for (unsigned i = 0; i < X.size(); ++i) {
            SR p = make(q, P, L);
            correct(p, pc);
            G[{pc, i}] = p.gradient(vec(X[i].c, X[i].x));
            SR r = make(q, P, L);
            correct(r, pc);
            H[{pc, i}] = r.hessians(vec(X[i].c, X[i].x))[0];
        }
    auto alike = [](const dvec &a, const dvec &b) {
        bool ok = a.size() == b.size();
        for (unsigned i = 0; ok && i < a.size(); ++i) ok = same(a[i], b[i]);
        return ok;
    };
    for (unsigned f = 0; f < O.size(); ++f) {
        if (!mc::begin("history " + q.str() + " first " + show(O[f]))) continue;
        ++mc::rep().states;
        mc::product(uvec(depth - 1u, static_cast<unsigned>(O.size())), [&](const uvec &rest) {
            uvec seq{f};
            seq.insert(seq.end(), rest.begin(), rest.end());
            mc::alive();
            SR p = make(q, P, L);
            SR other = make(q, P, L, 3u);
            unsigned pc = 0;
            auto at = [&](unsigned i) { std::string s; for (unsigned j = 0; j <= i; ++j) s += show(O[seq[j]]); return s; };
            for (unsigned i = 0; i < seq.size(); ++i) {
                const auto &z = O[seq[i]];
                ++mc::rep().transitions;
                if (z.kind == KINDS) {
                    correct(p, z.x);
                    pc = z.x;
                    continue;
                }
                if (z.kind == KINDS + 1u) {
                    if (z.x == 0u) { SR t(p); p = t; }
                    if (z.x == 1u) { other = p; correct(p, 2u); p = other; }
                    if (z.x == 2u) { SR t(std::move(p)); p = std::move(t); }
                    if (z.x == 3u) { SR t(p); correct(t, 1u); t.fitness(vec(X[0].c, X[0].x)); t.gradient(vec(X[1].c, X[1].x)); }
                    continue;
                }
                const auto &d = X[z.x];
                auto v = vec(d.c, d.x);
                std::string w;
                if (z.kind == FIT) w = fitness_wrong(o, p.fitness(v), d.c, d.x, pc);
                if (z.kind == GRAD) { auto g = p.gradient(v); if (!alike(g, G[{pc, z.x}])) w = mc::str(g) + " expected " + mc::str(G[{pc, z.x}]); }
                if (z.kind == HESS) { auto g = p.hessians(v)[0]; if (!alike(g, H[{pc, z.x}])) w = mc::str(g) + " expected " + mc::str(H[{pc, z.x}]); }
                if (z.kind == PRETTY) w = pretty_wrong(o, p.pretty(v), d.c, d.x);
                if (z.kind == PREDICT)
                    for (auto &in : P) {
                        auto got = p.predict(in, v), want = o.value(d.c, d.x, in, pc);
                        bool ok = got.size() == want.size();
                        for (unsigned j = 0; ok && j < got.size(); ++j) ok = same(got[j], want[j]);
                        if (!ok) w = mc::str(got) + " expected " + mc::str(want);
                    }
                mc::check(w.empty(), "history", [&]() { return at(i) + ": " + w; });
            }
            ++mc::rep().traces;
        });
    }
}
// ---------------------------------------------------------------- S02
static void derivatives(const conf &q, std::uint64_t cap, unsigned near = 0u, unsigned pc = 0u, unsigned size = 3u)
{
    if (!mc::begin("derivatives " + q.str() + (pc ? " correction" + std::to_string(pc) : "") + (size > 3u ? " large " + std::to_string(size) : ""))) return;
    dmat P, L;
    data(q, size, P, L);
    if (size > 3u)
        for (unsigned i = 0; i < size; ++i) P[i][0] += 0.001 * i;
    SR p = make(q, P, L);
    if (pc) correct(p, pc);
    shape s = q.s();
    mc::check(p.gradient_sparsity().size() == q.eph && p.hessians_sparsity().size() == 1u + q.mo && p.hessians_sparsity()[0].size() == q.eph * (q.eph + 1u) / 2u, "sparsity", []() { return std::string(); });
    const auto gs = p.gradient_sparsity();
    const auto hs = p.hessians_sparsity();
    // the distinct (i, j), lower triangle, each exactly once; all first-objective entries
    std::set<std::pair<std::size_t, std::size_t>> seen;
    for (unsigned k = 0; k < gs.size(); ++k) mc::check(gs[k].first == 0u && gs[k].second == k, "sparsity", []() { return std::string("gradient"); });
    for (auto &h : hs[0]) mc::check(h.second <= h.first && h.first < q.eph && seen.insert(h).second, "sparsity", []() { return std::string("hessian"); });
    auto one = [&](const uvec &x) {
        ++mc::rep().states;
        mc::alive();
        for (unsigned k = 0; k < 2u; ++k) {
            auto c = constants(k, q.eph);
            jet::kink() = 1e300;
            jet::num want(0., q.eph);
            double scale = 0; // of the intermediate results, whose rounding errors may show
            for (unsigned i = 0; i < P.size(); ++i) {
                auto at = [&](double sign) {
                    std::vector<jet::num> in;
                    for (double v : P[i]) in.emplace_back(sign * v, q.eph);
                    for (unsigned j = 0; j < q.eph; ++j) in.push_back(jet::num::var(c[j], q.eph, j));
                    return jet::eval(s, x, in, q.k);
                };
                auto outs = at(1.);
                // the corrections pc1 and pc2 of the model
                if (pc == 1u)
                    for (auto &u : outs) u = jet::lin(jet::num(P[i][0], q.eph), 1., u, 2.);
                if (pc == 2u) {
                    auto w = at(-1.);
                    for (unsigned j = 0; j < outs.size(); ++j) {
                        auto u = jet::lin(outs[j], 1., w[j], -1.);
                        u.v += 0.5;
                        outs[j] = u;
                    }
                }
                for (auto &u : outs) {
                    scale = std::max(scale, u.v * u.v);
                    for (double z : u.g) scale = std::max(scale, z * z);
                    for (double z : u.h) scale = std::max(scale, std::abs(z));
                }
                want = jet::lin(want, 1., jet::loss(outs, L[i], q.ce), 1. / static_cast<double>(P.size()));
            }
            auto v = vec(c, x);
            auto g = p.gradient(v);
            auto h = p.hessians(v);
            ++mc::rep().transitions;
            bool sz = g.size() == q.eph && h.size() == hs.size();
            for (unsigned i = 0; sz && i < h.size(); ++i) sz = h[i].size() == hs[i].size();
            mc::check(sz, "sizes", [&]() { return mc::str(v); });
            if (!sz) continue;
            if (q.mo) for (double z : h[1]) mc::check(z == 0., "complexity-hessian", [&]() { return mc::str(v); });
            // inactive constants have no influence, kinks and all
            for (unsigned i = 0; i < q.eph; ++i)
                if (!std::binary_search(s.active(x).first.begin(), s.active(x).first.end(), q.n + i)) {
                    bool zero = g[i] == 0.;
                    for (unsigned t = 0; t < hs[0].size(); ++t)
                        if (hs[0][t].first == i || hs[0][t].second == i) zero = zero && h[0][t] == 0.;
                    // a non finite loss may spoil everything
                    mc::check(zero || !std::isfinite(want.v), "inactive", [&]() { return mc::str(v) + " constant " + std::to_string(i); });
                }
            double mx = std::abs(want.v);
            bool fin = std::isfinite(want.v);
            for (double z : want.g) fin = fin && std::isfinite(z), mx = std::max(mx, std::abs(z));
            for (double z : want.h) fin = fin && std::isfinite(z), mx = std::max(mx, std::abs(z));
            if (!fin || mx > 1e8 || jet::kink() < 1e-3) {
                mc::rep().counters["decision vectors at or near a singularity (derivatives not compared)"]++;
                continue;
            }
            const double atol = 1e-9 * (1. + mx) + 1e-13 * (std::isfinite(scale) ? scale : 0.);
            for (unsigned i = 0; i < q.eph; ++i) mc::check(mc::close(g[i], want.g[i], 1e-7, atol), "gradient", [&]() { return mc::str(v) + " d/dc" + std::to_string(i + 1u) + " = " + mc::str(g[i]) + " expected " + mc::str(want.g[i]); });
            for (unsigned t = 0; t < hs[0].size(); ++t) {
                auto i = hs[0][t].first, j = hs[0][t].second;
                mc::check(mc::close(h[0][t], want.h[i * q.eph + j], 1e-7, atol), "hessian", [&]() { return mc::str(v) + " d2/dc" + std::to_string(i + 1u) + "dc" + std::to_string(j + 1u) + " = " + mc::str(h[0][t]) + " expected " + mc::str(want.h[i * q.eph + j]); });
            }
            mc::outcome(mc::str(g));
        }
        ++mc::rep().traces;
    };
    if (size > 3u) {
        for (auto &x : ref::large_chromosomes(s, 41u)) one(x);
        mc::rep().counters["large problems"]++;
    } else if (near) {
        for (auto &b : ref::bases(s)) ref::near_chromosomes(s, b, near, one);
    } else if (ref::all_chromosomes(s, cap, one)) mc::rep().counters["shapes with every chromosome"]++;
    else for (auto &b : ref::bases(s)) ref::near_chromosomes(s, b, mc::rep().thorough ? 3u : 2u, one);
}
// ---------------------------------------------------------------- S03
template <int TS>
struct fn {
    double operator()(const dvec &v) const { return v[0] + v[1]; }
    pagmo::thread_safety get_thread_safety() const { return static_cast<pagmo::thread_safety>(TS); }
    template <typename A>
    void serialize(A &, unsigned) {}
};
struct pfn {
    std::string operator()(const std::vector<std::string> &v) const { return v[0] + "+" + v[1]; }
    template <typename A>
    void serialize(A &, unsigned) {}
};
template <int TS, typename T>
struct pcf {
    std::vector<T> operator()(const std::vector<T> &in, std::function<std::vector<T>(const std::vector<T> &)> g) const { return g(in); }
    pagmo::thread_safety get_thread_safety() const { return static_cast<pagmo::thread_safety>(TS); }
};
static void contract()
{
    // every combination of good and bad arguments
    struct alt {
        std::string what;
        unsigned n_points, n_labels, dim, odim;
        int ragged; // 0 none, 1 a point, 2 a label
        unsigned at = 0;  // which one
        int by = 1;       // how much longer
    };
    std::vector<alt> D{{"good", 4, 4, 2, 1, 0}, {"good one point", 1, 1, 1, 2, 0}, {"no data", 0, 0, 2, 1, 0}, {"no points", 0, 3, 2, 1, 0}, {"no labels", 3, 0, 2, 1, 0},
                             {"mismatch", 4, 3, 2, 1, 0}, {"mismatch2", 3, 4, 2, 1, 0},  {"zero dimension", 3, 3, 0, 1, 0}, {"zero outputs", 3, 3, 2, 0, 0}};
    for (int what : {1, 2})
        for (unsigned at = 0; at < 4u; ++at)
            for (int by : {-2, -1, 1, 2}) D.push_back({std::string("ragged ") + (what == 1 ? "point " : "label ") + std::to_string(at) + (by > 0 ? "+" : "") + std::to_string(by), 4, 4, 2, 2, what, at, by});
    const std::vector<names_t> K{{"sum", "mul"}, {}, {"sum", "diff", "mul", "pdiv"}};
    for (auto &d : D)
        for (unsigned r : {0u, 1u, 2u})
            for (unsigned c : {0u, 1u, 3u}) {
                if (!mc::begin("construct " + d.what + " r" + std::to_string(r) + " c" + std::to_string(c))) continue;
                dmat P, L;
                for (unsigned i = 0; i < d.n_points; ++i) P.emplace_back(d.dim + (d.ragged == 1 && i == d.at ? d.by : 0), 0.5 + i);
                for (unsigned i = 0; i < d.n_labels; ++i) L.emplace_back(d.odim + (d.ragged == 2 && i == d.at ? d.by : 0), 0.25 * i);
                const bool data_ok = d.what.substr(0, 4) == "good";
                for (unsigned l : {0u, 1u, 4u})
                    for (unsigned a : {0u, 1u, 2u, 3u})
                        for (auto &k : K)
                            for (unsigned eph : {0u, 2u})
                                for (std::string loss : {"MSE", "CE", "mse", ""})
                                    for (unsigned seed : {0u, 1u}) {
                                        if (seed == 1u && eph == 0u) continue;
                                        // (no inputs at all are fine as long as there are constants)
                                        const bool good = (data_ok || (d.what == "zero dimension" && eph)) && r && c && l && a >= 2u && !k.empty() && (loss == "MSE" || loss == "CE");
                                        std::string w;
                                        // the constructor itself has to refuse what is not legal
                                        auto oc = mc::outcome_of([&]() { SR p(P, L, r, c, l, a, kernels(k), eph, seed == 1u, 0u, loss, seed); });
                                        auto oc2 = !oc.empty() || !good ? std::string{} : mc::outcome_of([&]() {
                                            SR p(P, L, r, c, l, a, kernels(k), eph, seed == 1u, 0u, loss, seed);
                                            shape s(d.dim + eph, d.odim, r, c, l, uvec(c, a), static_cast<unsigned>(k.size()));
                                            auto b = p.get_bounds();
                                            if (b.first.size() != eph + s.size() || b.second.size() != b.first.size()) w = "bounds of size " + std::to_string(b.first.size());
                                            else {
                                                for (unsigned i = 0; i < eph; ++i) if (b.first[i] != -10. || b.second[i] != 10.) w = "bounds of constants";
                                                for (unsigned g = 0; g < s.size(); ++g) if (b.first[eph + g] != s.allowed(g).front() || b.second[eph + g] != s.allowed(g).back()) w = "bounds of gene " + std::to_string(g);
                                            }
                                            if (p.get_nix() != s.size()) w = "integer dimension";
                                            if (p.get_nobj() != 1u + (seed == 1u)) w = "objectives";
                                            if (p.get_name().empty()) w = "no name";
                                            auto info = p.get_extra_info();
                                            auto has = [&](const std::string &t) { return info.find(t) != std::string::npos; };
                                            if (!has("points): " + std::to_string(d.dim)) || !has("labels): " + std::to_string(d.odim)) || !has("size: " + std::to_string(d.n_points)) || !has("Loss: " + loss)) w = "extra info: " + info;
                                            // as a pagmo problem
                                            pagmo::problem q(p);
                                            if (q.get_nix() != s.size() || q.get_ncx() != eph || q.get_nx() != eph + s.size() || q.get_nobj() != 1u + (seed == 1u) || q.get_nc() != 0u || !q.has_gradient() || !q.has_hessians() || q.is_stochastic()) w = "pagmo problem";
                                            auto B = ref::bases(s);
                                            for (auto &x : B) {
                                                auto v = vec(constants(1u, eph), x);
                                                auto f = q.fitness(v), f2 = p.fitness(v);
                                                if (f.size() != q.get_nobj() || !(f == f2 || f[0] != f[0])) w = "fitness through pagmo";
                                                if (eph) {
                                                    q.gradient(v);
                                                    q.hessians(v);
                                                }
                                                auto u = q.fitness(v);
                                                if (!same(u[0], f[0])) w = "fitness after derivatives";
                                            }
                                        });
                                        ++mc::rep().transitions;
                                        mc::check(good ? oc.empty() : oc == "invalid_argument", "construct", [&]() { return d.what + " r" + std::to_string(r) + " c" + std::to_string(c) + " l" + std::to_string(l) + " a" + std::to_string(a) + mc::str(k) + " eph" + std::to_string(eph) + " loss '" + loss + "': '" + oc + "'"; });
                                        mc::check(oc2.empty(), "contract-use", [&]() { return d.what + " r" + std::to_string(r) + " c" + std::to_string(c) + " l" + std::to_string(l) + " a" + std::to_string(a) + mc::str(k) + " eph" + std::to_string(eph) + " loss '" + loss + "': '" + oc2 + "'"; });
                                        mc::check(w.empty(), "contract", [&]() { return d.what + " r" + std::to_string(r) + " c" + std::to_string(c) + " l" + std::to_string(l) + " a" + std::to_string(a) + mc::str(k) + " eph" + std::to_string(eph) + ": " + w; });
                                    }
                ++mc::rep().states;
                ++mc::rep().traces;
            }
    // decision vectors that are no legal encoding are refused, and leave the problem as it was
    for (unsigned eph : {0u, 1u, 2u}) {
        if (!mc::begin("illegal decision vectors eph" + std::to_string(eph))) continue;
        conf q{2u, 1u, 1u, 2u, 2u, 2u, eph, {"sum", "mul", "diff"}, false, false, 0u};
        dmat P, L;
        data(q, 3u, P, L);
        SR p = make(q, P, L);
        shape s = q.s();
        oracle o(q, P, L);
        for (auto &b : ref::bases(s)) {
            auto good = vec(constants(0u, eph), b);
            for (unsigned g = 0; g < s.size(); ++g)
                for (double bad : {-1., 100., 1e12, -1e12, 5.}) {
                    auto v = good;
                    v[eph + g] = bad;
                    if (bad > 0. && bad < 100. && std::find(s.allowed(g).begin(), s.allowed(g).end(), static_cast<unsigned>(bad)) != s.allowed(g).end()) continue;
                    auto refused = [&](const std::function<void()> &f) { auto oc = mc::outcome_of(f); return !oc.empty(); };
                    bool ok = refused([&]() { p.fitness(v); }) && refused([&]() { p.gradient(v); }) && refused([&]() { p.hessians(v); }) && refused([&]() { p.pretty(v); }) && refused([&]() { p.predict(P[0], v); });
                    mc::check(ok, "illegal", [&]() { return mc::str(v) + " accepted"; });
                    auto w = fitness_wrong(o, p.fitness(good), constants(0u, eph), b, 0u);
                    mc::check(w.empty(), "illegal-left-traces", [&]() { return mc::str(v) + " then " + mc::str(good) + ": " + w; });
                    mc::rep().transitions += 6u;
                }
            for (auto &wrong : {dvec{}, dvec{0.5}, dvec{0.5, 0.25, 7.}}) {
                bool ok = mc::outcome_of([&]() { p.predict(wrong, good); }) == "invalid_argument";
                mc::check(ok, "predict-size", [&]() { return mc::str(wrong); });
            }
        }
        ++mc::rep().states;
        ++mc::rep().traces;
    }
    // thread safety: the weakest of everything the evaluation calls
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j) {
            if (!mc::begin("thread safety " + std::to_string(i) + std::to_string(j))) continue;
            auto ker = [](int t) {
                if (t == 0) return dcgp::kernel<double>(fn<0>{}, pfn{}, "sum");
                if (t == 1) return dcgp::kernel<double>(fn<1>{}, pfn{}, "sum");
                return dcgp::kernel<double>(fn<2>{}, pfn{}, "sum");
            };
            // (the printing callable is of the basic level)
            std::vector<kernel<double>> k{ker(i), ker(j)};
            SR p({{1., 2.}, {3., 4.}}, {{1.}, {2.}}, 1u, 2u, 2u, 2u, k, 1u, false, 0u, "MSE", 3u);
            int want = std::min({i, j, 1});
            mc::check(static_cast<int>(p.get_thread_safety()) == want && static_cast<int>(pagmo::problem(p).get_thread_safety()) == want, "thread-safety", [&]() { return std::to_string(static_cast<int>(p.get_thread_safety())) + " expected " + std::to_string(want); });
            for (int a = 0; a < 3; ++a)
                for (int b = 0; b < 3; ++b) {
                    SR r(p);
                    auto setpc = [&](auto pd) {
                        if (b == 0) r.set_phenotype_correction(pd, pcf<0, audi::gdual_v>{});
                        if (b == 1) r.set_phenotype_correction(pd, pcf<1, audi::gdual_v>{});
                        if (b == 2) r.set_phenotype_correction(pd, pcf<2, audi::gdual_v>{});
                    };
                    if (a == 0) setpc(pcf<0, double>{});
                    if (a == 1) setpc(pcf<1, double>{});
                    if (a == 2) setpc(pcf<2, double>{});
                    int w = std::min({want, a, b});
                    SR t(r), u;
                    u = t;
                    mc::check(static_cast<int>(r.get_thread_safety()) == w && static_cast<int>(t.get_thread_safety()) == w && static_cast<int>(u.get_thread_safety()) == w, "correction-thread-safety", [&]() { return std::to_string(static_cast<int>(r.get_thread_safety())) + " expected " + std::to_string(w); });
                    r.unset_phenotype_correction();
                    mc::check(static_cast<int>(r.get_thread_safety()) == want, "correction-thread-safety", [&]() { return std::string("after unset"); });
                    ++mc::rep().transitions;
                }
            ++mc::rep().states;
            ++mc::rep().traces;
        }
    if (mc::begin("default constructed")) {
        SR p;
        mc::check(p.get_nobj() == 2u && !p.get_name().empty() && !p.get_extra_info().empty(), "default", []() { return std::string(); });
        pagmo::problem q(p);
        mc::check(q.get_nobj() == 2u, "default", []() { return std::string("pagmo"); });
        ++mc::rep().states;
        ++mc::rep().transitions;
        ++mc::rep().traces;
    }
}
int main(int argc, char **argv)
{
    return mc::main(argc, argv, []() {
        const bool T = mc::rep().thorough;
        (void)T;
#if MODE == 1
        std::vector<names_t> K{{"sum", "diff", "mul", "pdiv"}, {"sum", "mul", "div"}, {"ReLu", "sum", "step"}, {"ELU", "psqrt", "diff"}, {"log", "exp", "pdiv"}, {"tanh", "sig", "gaussian"}, {"sin", "cos", "sqrt"}};
        for (auto &k : K) {
            for (bool mo : {false, true})
                for (bool ce : {false, true}) {
                    values({1u, 1u, 1u, 2u, 2u, 2u, 1u, k, mo, ce, mo ? 2u : 0u}, T ? 60000u : 1200u);
                    values({2u, 2u, 1u, 2u, 1u, 2u, 2u, k, mo, ce, mo ? 0u : 4u}, T ? 60000u : 500u);
                    if (T || k == K[0]) values({1u, 2u, 2u, 2u, 3u, 3u, 0u, k, mo, ce, 0u}, T ? 60000u : 500u);
                }
        }
        // large: many nodes, constants, points, parts, outputs
        for (bool mo : {false, true})
            for (bool ce : {false, true}) {
                values({3u, 2u, 1u, 60u, 61u, 2u, 12u, {"sum", "tanh", "diff"}, mo, ce, ce ? 10u : 0u}, 0u, 100u, true);
                values({2u, 12u, 3u, 4u, 5u, 5u, 1u, {"sum", "sin", "cos", "diff"}, mo, ce, ce ? 0u : 40u}, 0u, 40u, true);
                values({5u, 1u, 1u, 3u, 1u, 2u, 0u, {"tanh", "diff", "sum"}, mo, false, 0u}, 0u, 1500u, true);
                values({1u, 2u, 20u, 3u, 1u, 3u, 2u, {"sum", "tanh", "diff"}, mo, ce, 33u}, 0u, 66u, true);
            }
        const unsigned d = T ? 4u : 3u;
        histories({1u, 1u, 1u, 2u, 2u, 2u, 1u, {"sum", "mul", "pdiv"}, false, false, 0u}, d);
        histories({1u, 1u, 1u, 2u, 2u, 2u, 2u, {"sum", "mul", "diff"}, true, false, 2u}, d);
        histories({2u, 2u, 1u, 2u, 2u, 2u, 1u, {"sum", "mul", "div"}, false, true, 0u}, d);
        histories({1u, 2u, 2u, 1u, 2u, 2u, 1u, {"ReLu", "sum", "tanh"}, true, true, 4u}, d);
#elif MODE == 2
        std::vector<names_t> K{{"sum", "diff", "mul", "pdiv"}, {"sum", "mul", "div"}, {"ReLu", "mul", "step"}, {"ELU", "psqrt", "diff"}, {"log", "exp", "mul"}, {"tanh", "sig", "gaussian"}, {"sin", "cos", "sqrt"}, {"ISRU", "sin_nu", "cos_nu"}, {"gaussian_nu", "inv_sum", "abs"}};
        for (auto &k : K)
            for (bool ce : {false, true}) {
                derivatives({1u, ce ? 2u : 1u, 1u, 2u, 2u, 2u, 1u, k, ce, ce, 0u}, T ? 100000u : 2500u);
                derivatives({1u, ce ? 2u : 1u, 1u, 2u, 1u, 2u, 2u, k, !ce, ce, 0u}, T ? 100000u : 1200u);
                derivatives({1u, 2u, 1u, 1u, 1u, 3u, 3u, k, false, ce, 0u}, T ? 100000u : 2500u);
                if (T) derivatives({2u, 2u, 2u, 2u, 2u, 2u, 3u, k, false, ce, 0u}, 100000u);
            }
        for (unsigned pc : {1u, 2u})
            for (auto &k : K) {
                derivatives({1u, 2u, 1u, 2u, 2u, 2u, 2u, k, pc == 1u, false, 0u}, T ? 60000u : 400u, 0u, pc);
                derivatives({2u, 2u, 1u, 1u, 1u, 2u, 1u, k, pc == 2u, true, 0u}, T ? 60000u : 400u, 0u, pc);
            }
        for (bool ce : {false, true}) {
            derivatives({2u, 2u, 1u, 40u, 41u, 2u, 12u, {"sum", "tanh", "diff"}, ce, ce, ce ? 10u : 0u}, 0u, 0u, 0u, 100u);
            derivatives({1u, 12u, 3u, 4u, 5u, 3u, 4u, {"sum", "sin", "mul"}, !ce, ce, 0u}, 0u, 0u, 0u, 33u);
            derivatives({1u, 1u, 1u, 2u, 2u, 2u, 2u, {"sum", "mul", "tanh"}, ce, false, 0u}, 0u, 0u, 0u, 1500u);
        }
        // what was asked before does not matter
        const unsigned hd = T ? 4u : 3u;
        histories({1u, 1u, 1u, 2u, 2u, 2u, 1u, {"sum", "mul", "div"}, false, false, 0u}, hd);
        histories({1u, 1u, 1u, 2u, 2u, 2u, 2u, {"sum", "mul", "sig"}, true, false, 0u}, hd);
        histories({2u, 2u, 1u, 2u, 2u, 2u, 1u, {"diff", "mul", "div"}, false, true, 0u}, hd);
        // many constants: the names c1, c2, ..., c10, ... are not in lexicographic order
        for (unsigned eph : {9u, 10u, 11u, 12u, 13u}) {
            derivatives({1u, 1u, 1u, 1u, 1u, eph, eph, {"mul", "sum", "tanh"}, false, false, 0u}, 1u, T ? 2u : 1u);
            derivatives({1u, 2u, 2u, 1u, 1u, 5u, eph, {"mul", "sin_nu", "diff"}, true, true, 0u}, 1u, T ? 2u : 1u);
        }
#else
        contract();
#endif
        mc::sample("fitness, gradient and Hessian of every chromosome of n=1 m=1 r=1 c=2 with one constant, kernels {sum, diff, mul, pdiv}");
    });
}
