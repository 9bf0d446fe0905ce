// E09: the loss of a batch is the mean over its points of the documented loss (mean squared error, or cross entropy of the
// softmax) of the expression's outputs, for every legal chromosome, batch, labels and number of parallel parts; what cannot
// be evaluated is refused and nothing is changed.
#include "common.hpp"
#include "net.hpp"
#include <dcgp/expression_ann.hpp>
#include <dcgp/expression_weighted.hpp>
using namespace hc;
using dcgp::expression_ann;
using dcgp::expression_weighted;
using dmat = std::vector<dvec>;

static double ref_loss(const dvec &o, const dvec &y, bool ce)
{
    long double r = 0;
    if (!ce) {
        for (std::size_t i = 0; i < o.size(); ++i) r += (static_cast<long double>(o[i]) - y[i]) * (static_cast<long double>(o[i]) - y[i]);
        return static_cast<double>(r / o.size());
    }
    // softmax, computed with a log-sum-exp
    long double mx = *std::max_element(o.begin(), o.end()), s = 0;
    for (double v : o) s += std::exp(static_cast<long double>(v) - mx);
    for (std::size_t i = 0; i < o.size(); ++i) {
        if (y[i] != 0.) r -= y[i] * (static_cast<long double>(o[i]) - mx - std::log(s));
    }
    return static_cast<double>(r);
}
inline double cf(double v) { return v; }
template <typename T>
double cf(const T &v) { return v.constant_cf(); }

// tuples over `grid` of length n
static std::vector<dvec> tuples(const dvec &grid, unsigned n)
{
    std::vector<dvec> r;
    mc::product(std::vector<unsigned>(n, static_cast<unsigned>(grid.size())), [&](const uvec &v) {
        dvec x;
        for (auto i : v) x.push_back(grid[i]);
        r.push_back(x);
    });
    return r;
}
// eval: reference value of the object at a point
template <typename Ex, typename T>
void batches(const Ex &e, unsigned nin, unsigned m, const std::function<dvec(const dvec &)> &eval, bool strong)
{
    const auto before = mc::str(e.get());
    const auto ins = tuples(strong ? dvec{-1.5, 0., 2.} : dvec{-0.5, 1.25}, nin);
    std::vector<dvec> labs[2];
    labs[0] = tuples({-1., 0.5}, m); // regression
    // distributions, one-hot or not, for the cross entropy
    for (unsigned i = 0; i < m; ++i) {
        dvec y(m, 0.);
        y[i] = 1.;
        labs[1].push_back(y);
    }
    labs[1].push_back(dvec(m, 1. / m));
    auto conv = [](const dmat &x) {
        std::vector<std::vector<T>> r;
        for (auto &v : x) {
            r.emplace_back();
            for (double q : v) r.back().push_back(T(q));
        }
        return r;
    };
    // all batches whose points and labels walk the grids with every start and stride
    for (unsigned ce = 0; ce < 2u; ++ce) {
        const std::string name = ce ? "CE" : "MSE";
        for (unsigned size = 1; size <= 6u; ++size) {
            for (unsigned start = 0; start < (strong ? ins.size() : 2u); ++start) {
                for (unsigned stride = 1; stride <= 2u; ++stride) {
                    dmat P, L;
                    double want = 0;
                    bool finite = true;
                    for (unsigned i = 0; i < size; ++i) {
                        P.push_back(ins[(start + i * stride) % ins.size()]);
                        L.push_back(labs[ce][(start * stride + i) % labs[ce].size()]);
                        auto o = eval(P.back());
                        for (double v : o) finite = finite && std::isfinite(v);
                        if (!finite) break;
                        want += ref_loss(o, L.back(), ce);
                    }
                    if (!finite) continue;
                    want /= size;
                    auto p = conv(P), l = conv(L);
                    for (unsigned par = 0; par <= size + 1u; ++par) {
                        if (par > 1u && !strong && par != size + 1u && size % par) continue;
                        const bool ok = par == 0u || size % par == 0u;
                        double got = 0;
                        auto o = mc::outcome_of([&]() { got = cf(e.loss(p, l, name, par)); });
                        ++mc::rep().transitions;
                        if (ok) {
                            mc::check(o.empty() && mc::close(got, want, 1e-9, 1e-11), "loss", [&]() { return name + " of " + mc::str(e.get()) + " batch " + std::to_string(size) + " parallel " + std::to_string(par) + ": " + o + " " + mc::str(got) + " expected " + mc::str(want); });
                        } else {
                            mc::check(o == "invalid_argument", "refused", [&]() { return name + " batch " + std::to_string(size) + " parallel " + std::to_string(par) + ": '" + o + "' " + mc::str(got); });
                        }
                    }
                    if (size == 1u) {
                        using lt = typename expression<T>::loss_type;
                        const expression<T> &base = e;
                        double got = cf(base.loss(p[0], l[0], ce ? lt::CE : lt::MSE));
                        mc::check(mc::close(got, want), "loss-point", [&]() { return name + " of " + mc::str(e.get()) + " at a point: " + mc::str(got) + " expected " + mc::str(want); });
                    }
                }
            }
        }
    }
    mc::check(before == mc::str(e.get()), "changed", []() { return std::string(); });
}
template <typename Ex, typename T>
void refusals(const Ex &e, unsigned nin, unsigned m)
{
    using mat = std::vector<std::vector<T>>;
    using lt = typename expression<T>::loss_type;
    const expression<T> &b = e;
    auto bad = [&](const char *what, const std::function<void()> &f) {
        auto o = mc::outcome_of(f);
        mc::check(o == "invalid_argument", "refused", [&]() { return std::string(what) + ": '" + o + "'"; });
        ++mc::rep().transitions;
    };
    const std::vector<T> x(nin, T(0.5)), y(m, T(0.5)), xl(nin + 1u, T(0.5)), xs(nin - 1u, T(0.5)), yl(m + 1u, T(0.5)), ys(m - 1u, T(0.5));
    for (unsigned par : {0u, 1u, 2u}) {
        bad("no data", [&]() { b.loss(mat{}, mat{}, "MSE", par); });
        bad("more points", [&]() { b.loss(mat{x, x}, mat{y}, "MSE", par); });
        bad("more labels", [&]() { b.loss(mat{x, x}, mat{y, y, y, y}, "CE", par); });
        for (auto &n : {"", "mse", "ce", "MSE ", "RMSE", "C", "CEE"}) bad("loss name", [&]() { b.loss(mat{x, x}, mat{y, y}, n, par); });
        for (auto *q : {&xl, &xs})
            for (auto *n : {"MSE", "CE"}) {
                bad("point size", [&]() { b.loss(mat{x, *q}, mat{y, y}, n, par); });
                bad("point size", [&]() { b.loss(mat{*q, x}, mat{y, y}, n, par); });
            }
        for (auto *q : {&yl, &ys})
            for (auto *n : {"MSE", "CE"}) {
                bad("label size", [&]() { b.loss(mat{x, x}, mat{y, *q}, n, par); });
                bad("label size", [&]() { b.loss(mat{x, x}, mat{*q, y}, n, par); });
            }
    }
    bad("point size", [&]() { b.loss(xl, y, lt::MSE); });
    bad("point size", [&]() { b.loss(xs, y, lt::CE); });
    bad("label size", [&]() { b.loss(x, yl, lt::MSE); });
    bad("label size", [&]() { b.loss(x, ys, lt::CE); });
}
// reference value with weights and biases
static double wval(const shape &s, const uvec &x, unsigned node, const dvec &in, const std::vector<ref::fun> &f, const dvec &w, const dvec &b)
{
    if (node < s.n) return in[node];
    dvec a;
    unsigned wi = 0;
    for (unsigned k = s.n; k < node; ++k) wi += s.ar(k);
    for (unsigned j = 1; j <= s.ar(node); ++j) a.push_back(w[wi + j - 1u] * wval(s, x, x[s.gene(node) + j], in, f, w, b));
    if (!b.empty()) a[0] += b[node - s.n];
    return f[x[s.gene(node)]](a);
}
template <typename F>
void chromosomes(const shape &s, F f)
{
    if (ref::all_chromosomes(s, mc::rep().thorough ? 20000u : 1200u, f)) return;
    for (auto &b : ref::bases(s)) ref::near_chromosomes(s, b, mc::rep().thorough ? 2u : 1u, f);
    mc::rep().exhaustive = false;
}
// long batches, many outputs and parts
template <typename Ex, typename T>
void large(const std::string &type, const Ex &e, unsigned nin, unsigned m, const std::function<dvec(const dvec &)> &eval)
{
    const std::string before = mc::str(e.get());
    for (unsigned ce = 0; ce < 2u; ++ce)
        for (unsigned size : {7u, 12u, 16u, 31u, 33u, 64u, 100u, 257u, 1000u, 1025u, 3000u}) {
            if (!mc::begin("large " + type + (ce ? " CE " : " MSE ") + std::to_string(size))) continue;
            std::vector<std::vector<T>> P, L;
            long double sum = 0;
            for (unsigned i = 0; i < size; ++i) {
                dvec p, y(m, 0.);
                for (unsigned j = 0; j < nin; ++j) p.push_back(-0.9 + 0.0037 * i * (j % 2u ? 1. : -1.) + 0.31 * (j % 7u) + (i % 5u == 3u ? 0.8 : 0.));
                if (ce) y[(i * 5u + 1u) % m] = 1.;
                else
                    for (unsigned j = 0; j < m; ++j) y[j] = 0.5 * ((i + 3u * j) % 7u) - 1.;
                sum += ref_loss(eval(p), y, ce);
                P.emplace_back();
                L.emplace_back();
                for (double q : p) P.back().push_back(T(q));
                for (double q : y) L.back().push_back(T(q));
            }
            const double want = static_cast<double>(sum / size);
            for (unsigned par : {0u, 1u, 2u, 3u, 4u, 5u, 7u, 8u, 10u, 11u, 12u, 16u, 20u, 25u, 31u, 32u, 33u, 40u, 41u, 50u, 60u, 64u, 75u, 100u, 125u, 200u, 205u, 250u, 257u, 300u, 500u, 1000u, 1025u, 1500u, 3000u, 3001u, 4294967295u}) {
                const bool ok = par == 0u || size % par == 0u;
                double got = 0;
                auto o = mc::outcome_of([&]() { got = cf(e.loss(P, L, ce ? "CE" : "MSE", par)); });
                ++mc::rep().transitions;
                if (ok) mc::check(o.empty() && mc::close(got, want, 1e-9, 1e-11), "loss", [&]() { return std::to_string(par) + " parts: " + o + " " + mc::str(got) + " expected " + mc::str(want); });
                else mc::check(o == "invalid_argument", "refused", [&]() { return std::to_string(par) + " parts: '" + o + "'"; });
                mc::alive();
            }
            ++mc::rep().states;
            ++mc::rep().traces;
        }
    mc::check(before == mc::str(e.get()), "changed", []() { return std::string(); });
}
int main(int argc, char **argv)
{
    return mc::main(argc, argv, []() {
        const std::vector<std::string> ks[] = {{"sum", "mul"}, {"diff", "sin"}}, as[] = {{"sum", "tanh"}, {"sig", "ISRU"}};
        const std::vector<shape> sh{{1, 1, 1, 1, 1, {2}, 2}, {2, 2, 1, 2, 2, {2, 1}, 2}, {2, 3, 2, 1, 1, {2}, 2}, {1, 2, 1, 2, 3, {1, 2}, 2}, {3, 2, 1, 2, 3, {2, 2}, 2}, {2, 1, 2, 2, 1, {1, 2}, 2}};
        for (auto &s : sh)
            for (unsigned t = 0; t < 2u; ++t)
                for (unsigned eph = 0; eph < (s.n > 1u ? 2u : 1u); ++eph) {
                    const auto f = ref_kernels(ks[t]);
                    const unsigned nin = s.n - eph;
                    if (mc::begin("double " + s.str() + " " + ks[t][0] + " eph " + std::to_string(eph))) {
                        expression<double> e(nin, s.m, s.r, s.c, s.l, s.arity, kernels(ks[t]), eph, 1u);
                        if (eph) e.set_eph_val({-0.75});
                        unsigned k = 0;
                        chromosomes(s, [&](const uvec &x) {
                            e.set(x);
                            mc::alive();
                            ++mc::rep().states;
                            batches<expression<double>, double>(e, nin, s.m, [&](const dvec &in) { dvec q(in); if (eph) q.push_back(-0.75); return s.eval(x, q, f); }, k++ % 40u == 0u);
                            ++mc::rep().traces;
                        });
                        refusals<expression<double>, double>(e, nin, s.m);
                    }
                    if (s.size() < 8u && mc::begin("gdual " + s.str() + " " + ks[t][0] + " eph " + std::to_string(eph))) {
                        using T = audi::gdual_d;
                        expression<T> e(nin, s.m, s.r, s.c, s.l, s.arity, kernels<T>(ks[t]), eph, 1u);
                        if (eph) e.set_eph_val({T(-0.75)});
                        chromosomes(s, [&](const uvec &x) {
                            e.set(x);
                            mc::alive();
                            ++mc::rep().states;
                            batches<expression<T>, T>(e, nin, s.m, [&](const dvec &in) { dvec q(in); if (eph) q.push_back(-0.75); return s.eval(x, q, f); }, false);
                            ++mc::rep().traces;
                        });
                        refusals<expression<T>, T>(e, nin, s.m);
                    }
                    if (eph) continue;
                    unsigned nw = 0;
                    for (auto a : s.arity) nw += a * s.r;
                    dvec w, b;
                    for (unsigned i = 0; i < nw; ++i) w.push_back(0.5 + 0.25 * i - 0.75 * (i % 3u));
                    for (unsigned i = 0; i < s.r * s.c; ++i) b.push_back(0.3 - 0.2 * i);
                    if (mc::begin("weighted " + s.str() + " " + ks[t][0])) {
                        expression_weighted<double> e(nin, s.m, s.r, s.c, s.l, s.arity, kernels(ks[t]), 1u);
                        e.set_weights(w);
                        chromosomes(s, [&](const uvec &x) {
                            e.set(x);
                            mc::alive();
                            ++mc::rep().states;
                            batches<expression_weighted<double>, double>(e, nin, s.m, [&](const dvec &in) { dvec r; for (unsigned o = 0; o < s.m; ++o) r.push_back(wval(s, x, x[s.size() - s.m + o], in, f, w, {})); return r; }, false);
                            ++mc::rep().traces;
                        });
                        refusals<expression_weighted<double>, double>(e, nin, s.m);
                    }
                    if (mc::begin("ann " + s.str() + " " + as[t][0])) {
                        const auto g = ref_kernels(as[t]);
                        expression_ann e(nin, s.m, s.r, s.c, s.l, s.arity, kernels(as[t]), 1u);
                        e.set_weights(w);
                        e.set_biases(b);
                        chromosomes(s, [&](const uvec &x) {
                            e.set(x);
                            mc::alive();
                            ++mc::rep().states;
                            batches<expression_ann, double>(e, nin, s.m, [&](const dvec &in) { dvec r; for (unsigned o = 0; o < s.m; ++o) r.push_back(wval(s, x, x[s.size() - s.m + o], in, g, w, b)); return r; }, false);
                            ++mc::rep().traces;
                        });
                        refusals<expression_ann, double>(e, nin, s.m);
                    }
                }
        for (unsigned t = 0; t < 2u; ++t) {
            const shape s = t ? shape(2, 1, 1, 2, 2, {2, 2}, 3) : shape(12, 14, 2, 4, 5, {2, 5, 1, 3}, 3);
            const std::vector<std::string> k{"sum", "tanh", "sin_nu"};
            const auto f = ref_kernels(k);
            const auto x = ref::chain(s);
            const std::string tag = t ? "narrow" : "wide";
            dvec w, b;
            for (unsigned i = 0; i < ref::n_weights(s); ++i) w.push_back(0.5 + 0.25 * (i % 7u) - 0.75 * (i % 3u));
            for (unsigned i = 0; i < s.r * s.c; ++i) b.push_back(0.3 - 0.2 * (i % 5u));
            const unsigned eph = t ? 1u : 11u;
            dvec ev;
            for (unsigned i = 0; i < eph; ++i) ev.push_back(0.4 - 0.15 * i);
            expression<double> e(s.n - eph, s.m, s.r, s.c, s.l, s.arity, kernels(k), eph, 1u);
            e.set(x);
            e.set_eph_val(ev);
            large<expression<double>, double>(tag + " double", e, s.n - eph, s.m, [&](const dvec &in) { dvec q(in); q.insert(q.end(), ev.begin(), ev.end()); return s.eval(x, q, f); });
            expression_weighted<double> ew(s.n, s.m, s.r, s.c, s.l, s.arity, kernels(k), 1u);
            ew.set(x);
            ew.set_weights(w);
            large<expression_weighted<double>, double>(tag + " weighted", ew, s.n, s.m, [&](const dvec &in) { return ref::weval(s, x, in, f, w); });
            expression_ann ea(s.n, s.m, s.r, s.c, s.l, s.arity, kernels(k), 1u);
            ea.set(x);
            ea.set_weights(w);
            ea.set_biases(b);
            large<expression_ann, double>(tag + " ann", ea, s.n, s.m, [&](const dvec &in) { return ref::weval(s, x, in, f, w, b); });
            if (t) {
                expression<audi::gdual_d> eg(s.n, s.m, s.r, s.c, s.l, s.arity, kernels<audi::gdual_d>(k), 0u, 1u);
                eg.set(x);
                large<expression<audi::gdual_d>, audi::gdual_d>(tag + " gdual", eg, s.n, s.m, [&](const dvec &in) { return s.eval(x, in, f); });
            }
        }
        // the cross entropy of large outputs does not overflow
        for (double big : {1., 30., 700., 1e4, 1e8}) {
            if (!mc::begin("large outputs " + mc::str(big))) continue;
            expression<double> e(2u, 2u, 1u, 1u, 2u, 1u, kernels({"sum"}), 0u, 1u);
            e.set({0, 0, 0, 1}); // outputs are the inputs
            for (double a : {-1., 0., 1.})
                for (double c : {-1., 0., 1.}) {
                    for (unsigned hot = 0; hot < 2u; ++hot) {
                        dvec y{hot == 0u ? 1. : 0., hot == 1u ? 1. : 0.}, o{a * big, c * big};
                        double got = e.loss(dmat{o}, dmat{y}, "CE"), want = ref_loss(o, y, true);
                        mc::check(mc::close(got, want, 1e-9, 1e-12), "large", [&]() { return mc::str(o) + " " + mc::str(got) + " expected " + mc::str(want); });
                        ++mc::rep().transitions;
                    }
                }
            ++mc::rep().traces;
        }
    });
}
