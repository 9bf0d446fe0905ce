// Exact second-order forward differentiation (value, gradient, Hessian), independent of dcgp and AuDi.
#ifndef VERIF_JET_HPP
#define VERIF_JET_HPP
#include "ref.hpp"

namespace jet
{
struct num {
    double v = 0;
    std::vector<double> g, h; // h: full n x n
    explicit num(double x = 0, unsigned n = 0) : v(x), g(n, 0.), h(n * n, 0.) {}
    static num var(double x, unsigned n, unsigned i)
    {
        num r(x, n);
        r.g[i] = 1.;
        return r;
    }
    unsigned n() const { return static_cast<unsigned>(g.size()); }
};
// distance of the arguments of non-smooth kernels from their kinks, over everything computed since the last reset
inline double &kink()
{
    static double k = 1e300;
    return k;
}
inline num compose(const num &a, double f, double f1, double f2)
{
    num r(f, a.n());
    for (unsigned i = 0; i < a.n(); ++i) {
        r.g[i] = f1 * a.g[i];
        for (unsigned j = 0; j < a.n(); ++j) r.h[i * a.n() + j] = f1 * a.h[i * a.n() + j] + f2 * a.g[i] * a.g[j];
    }
    return r;
}
inline num lin(const num &a, double p, const num &b, double q)
{
    num r(p * a.v + q * b.v, a.n());
    for (unsigned i = 0; i < a.g.size(); ++i) r.g[i] = p * a.g[i] + q * b.g[i];
    for (unsigned i = 0; i < a.h.size(); ++i) r.h[i] = p * a.h[i] + q * b.h[i];
    return r;
}
inline num mul(const num &a, const num &b)
{
    const unsigned n = a.n();
    num r(a.v * b.v, n);
    for (unsigned i = 0; i < n; ++i) {
        r.g[i] = a.v * b.g[i] + b.v * a.g[i];
        for (unsigned j = 0; j < n; ++j) r.h[i * n + j] = a.v * b.h[i * n + j] + b.v * a.h[i * n + j] + a.g[i] * b.g[j] + a.g[j] * b.g[i];
    }
    return r;
}
inline num inv(const num &b)
{
    return compose(b, 1. / b.v, -1. / (b.v * b.v), 2. / (b.v * b.v * b.v));
}
inline num kernel(const std::string &k, const std::vector<num> &a)
{
    auto fold = [&](double q) { num r(a[0]); for (unsigned i = 1; i < a.size(); ++i) r = lin(r, 1., a[i], q); return r; };
    auto kinked = [&](double s) { kink() = std::min(kink(), std::abs(s)); };
    if (k == "sum") return fold(1.);
    if (k == "diff") return fold(-1.);
    if (k == "mul") { num r(a[0]); for (unsigned i = 1; i < a.size(); ++i) r = mul(r, a[i]); return r; }
    if (k == "div" || k == "pdiv") { num r(a[0]); for (unsigned i = 1; i < a.size(); ++i) { kinked(a[i].v); r = mul(r, inv(a[i])); } return r; }
    if (k == "inv_sum") { num r = fold(1.); return lin(r, -1., r, 0.); }
    if (k == "sig") { num s = fold(1.); double f = 1. / (1. + std::exp(-s.v)); return compose(s, f, f * (1. - f), f * (1. - f) * (1. - 2. * f)); }
    if (k == "tanh") { num s = fold(1.); double f = std::tanh(s.v); return compose(s, f, 1. - f * f, -2. * f * (1. - f * f)); }
    if (k == "ReLu") { num s = fold(1.); kinked(s.v); return s.v < 0. ? compose(s, 0., 0., 0.) : s; }
    if (k == "ELU") { num s = fold(1.); kinked(s.v); double e = std::exp(s.v); return s.v < 0. ? compose(s, e - 1., e, e) : s; }
    if (k == "ISRU") { num s = fold(1.); double d = 1. + s.v * s.v; return compose(s, s.v / std::sqrt(d), 1. / (d * std::sqrt(d)), -3. * s.v / (d * d * std::sqrt(d))); }
    if (k == "sin_nu") { num s = fold(1.); return compose(s, std::sin(s.v), std::cos(s.v), -std::sin(s.v)); }
    if (k == "cos_nu") { num s = fold(1.); return compose(s, std::cos(s.v), -std::sin(s.v), -std::cos(s.v)); }
    if (k == "gaussian_nu" || k == "gaussian") {
        num s = k == "gaussian" ? a[0] : fold(1.);
        double f = std::exp(-s.v * s.v);
        return compose(s, f, -2. * s.v * f, (4. * s.v * s.v - 2.) * f);
    }
    if (k == "abs") { num s = fold(1.); kinked(s.v); return s.v < 0. ? lin(s, -1., s, 0.) : s; }
    if (k == "step") { num s = fold(1.); kinked(s.v); return compose(s, s.v < 0. ? 0. : 1., 0., 0.); }
    const num &x = a[0];
    if (k == "sin") return compose(x, std::sin(x.v), std::cos(x.v), -std::sin(x.v));
    if (k == "cos") return compose(x, std::cos(x.v), -std::sin(x.v), -std::cos(x.v));
    if (k == "exp") return compose(x, std::exp(x.v), std::exp(x.v), std::exp(x.v));
    if (k == "log") { kinked(x.v); return compose(x, std::log(x.v), 1. / x.v, -1. / (x.v * x.v)); }
    if (k == "sqrt") { kinked(x.v); double f = std::sqrt(x.v); return compose(x, f, 0.5 / f, -0.25 / (f * x.v)); }
    if (k == "psqrt") {
        kinked(x.v);
        double f = std::sqrt(std::abs(x.v)), s = x.v < 0. ? -1. : 1.;
        return compose(x, f, 0.5 * s / f, -0.25 / (f * std::abs(x.v)));
    }
    throw std::logic_error("no jet for " + k);
}
// outputs of the encoded expression; in: inputs then constants
inline std::vector<num> eval(const ref::shape &s, const ref::uvec &x, const std::vector<num> &in, const std::vector<std::string> &k)
{
    std::vector<num> node(in);
    node.resize(s.nodes(), num(0., in[0].n()));
    for (auto id : s.active(x).first) {
        if (id < s.n) continue;
        std::vector<num> a;
        for (unsigned j = 1; j <= s.ar(id); ++j) a.push_back(node[x[s.gene(id) + j]]);
        node[id] = kernel(k[x[s.gene(id)]], a);
    }
    std::vector<num> r;
    for (unsigned o = 0; o < s.m; ++o) r.push_back(node[x[s.size() - s.m + o]]);
    return r;
}
inline num loss(const std::vector<num> &o, const std::vector<double> &y, bool ce)
{
    const unsigned n = o[0].n();
    num r(0., n);
    if (!ce) {
        for (unsigned i = 0; i < o.size(); ++i) {
            num d(o[i]);
            d.v -= y[i];
            r = lin(r, 1., mul(d, d), 1. / static_cast<double>(o.size()));
        }
        return r;
    }
    double mx = o[0].v;
    for (auto &q : o) mx = std::max(mx, q.v);
    num s(0., n);
    for (auto q : o) {
        double e = std::exp(q.v - mx);
        s = lin(s, 1., compose(q, e, e, e), 1.);
    }
    num ls = compose(s, std::log(s.v), 1. / s.v, -1. / (s.v * s.v));
    for (unsigned i = 0; i < o.size(); ++i) {
        num t = lin(o[i], 1., ls, -1.);
        t.v -= mx;
        r = lin(r, 1., t, -y[i]);
    }
    return r;
}
} // namespace jet
#endif
