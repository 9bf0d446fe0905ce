// Reference model of weighted expressions and of artificial neural networks encoded as CGP (no dcgp code involved).
#ifndef VERIF_NET_HPP
#define VERIF_NET_HPP
#include "ref.hpp"
#include "symb.hpp"

namespace ref
{
// index of the first weight of a node: the weights of all nodes one after the other
inline unsigned first_weight(const shape &s, unsigned node)
{
    unsigned k = 0;
    for (unsigned i = s.n; i < node; ++i) k += s.ar(i);
    return k;
}
inline unsigned n_weights(const shape &s)
{
    return first_weight(s, s.nodes());
}
// value of a node when every input is multiplied by its weight and, if there are biases, the node's bias is added to the first
inline double wvalue(const shape &s, const uvec &x, unsigned node, const dvec &in, const std::vector<fun> &f, const dvec &w, const dvec &b)
{
    if (node < s.n) return in[node];
    dvec a;
    const unsigned k = first_weight(s, node);
    for (unsigned j = 1; j <= s.ar(node); ++j) a.push_back(w[k + j - 1u] * wvalue(s, x, x[s.gene(node) + j], in, f, w, b));
    if (!b.empty()) a[0] += b[node - s.n];
    return f[x[s.gene(node)]](a);
}
inline dvec weval(const shape &s, const uvec &x, const dvec &in, const std::vector<fun> &f, const dvec &w, const dvec &b = {})
{
    dvec r;
    if (s.nodes() <= 12u) {
        for (unsigned o = 0; o < s.m; ++o) r.push_back(wvalue(s, x, x[s.size() - s.m + o], in, f, w, b));
        return r;
    }
    dvec v(s.nodes(), 0.);
    for (auto node : s.active(x).first) {
        if (node < s.n) {
            v[node] = in[node];
            continue;
        }
        dvec a;
        const unsigned k = first_weight(s, node);
        for (unsigned j = 1; j <= s.ar(node); ++j) a.push_back(w[k + j - 1u] * v[x[s.gene(node) + j]]);
        if (!b.empty()) a[0] += b[node - s.n];
        v[node] = f[x[s.gene(node)]](a);
    }
    for (unsigned o = 0; o < s.m; ++o) r.push_back(v[x[s.size() - s.m + o]]);
    return r;
}
// nonlinearities of networks: value and slope at the weighted input sum; kink: no derivative there
struct nonlin {
    double v, d;
    bool kink;
};
inline nonlin nonlinearity(const std::string &n, double s)
{
    if (n == "sum") return {s, 1., false};
    if (n == "inv_sum") return {-s, -1., false};
    if (n == "tanh") return {std::tanh(s), 1. / (std::cosh(s) * std::cosh(s)), false};
    if (n == "sig") {
        double e = std::exp(-s), v = 1. / (1. + e);
        return {v, e * v * v, false};
    }
    const bool k = std::abs(s) < 1e-9;
    if (n == "ReLu") return {s < 0. ? 0. : s, s < 0. ? 0. : 1., k};
    if (n == "ELU") return {s < 0. ? std::exp(s) - 1. : s, s < 0. ? std::exp(s) : 1., false};
    if (n == "ISRU") return {s / std::sqrt(1. + s * s), std::pow(1. + s * s, -1.5), false};
    if (n == "sin_nu") return {std::sin(s), std::cos(s), false};
    if (n == "cos_nu") return {std::cos(s), -std::sin(s), false};
    if (n == "gaussian_nu") return {std::exp(-s * s), -2. * s * std::exp(-s * s), false};
    if (n == "abs") return {std::abs(s), s < 0. ? -1. : 1., k};
    if (n == "step") return {s < 0. ? 0. : 1., 0., k};
    throw std::runtime_error("no nonlinearity " + n);
}
struct net {
    shape s;
    std::vector<std::string> k; // kernel names
    uvec x;
    dvec w, b;
    bool kink = false; // some active node of the last evaluation sat on a kink
    // values of all nodes, and their derivatives with respect to every weight followed by every bias
    void forward(const dvec &in, dvec &v, std::vector<dvec> &d, bool grad)
    {
        const unsigned N = s.nodes(), P = grad ? static_cast<unsigned>(w.size() + b.size()) : 0u;
        const auto &act = s.active(x).first;
        v.assign(N, 0.);
        d.assign(N, dvec(P, 0.));
        for (auto node : act) {
            if (node < s.n) {
                v[node] = in[node];
                continue;
            }
            const unsigned g = s.gene(node), k0 = first_weight(s, node);
            double sum = b[node - s.n];
            dvec ds(P, 0.);
            if (grad) ds[w.size() + node - s.n] = 1.;
            for (unsigned j = 0; j < s.ar(node); ++j) {
                const unsigned from = x[g + 1u + j];
                sum += w[k0 + j] * v[from];
                if (grad) {
                    for (unsigned p = 0; p < P; ++p) ds[p] += w[k0 + j] * d[from][p];
                    ds[k0 + j] += v[from];
                }
            }
            auto q = nonlinearity(k[x[g]], sum);
            v[node] = q.v;
            kink = kink || q.kink;
            for (unsigned p = 0; p < P; ++p) d[node][p] = q.d * ds[p];
        }
    }
    dvec eval(const dvec &in)
    {
        dvec v, r;
        std::vector<dvec> d;
        forward(in, v, d, false);
        for (unsigned o = 0; o < s.m; ++o) r.push_back(v[x[s.size() - s.m + o]]);
        return r;
    }
    // loss of one point, its gradient added to g (weights, then biases)
    double loss(const dvec &in, const dvec &y, bool ce, dvec *g)
    {
        dvec v, o, dl;
        std::vector<dvec> d;
        forward(in, v, d, g != nullptr);
        for (unsigned i = 0; i < s.m; ++i) o.push_back(v[x[s.size() - s.m + i]]);
        double r = 0;
        if (!ce) {
            for (unsigned i = 0; i < s.m; ++i) {
                r += (o[i] - y[i]) * (o[i] - y[i]) / s.m;
                dl.push_back(2. * (o[i] - y[i]) / s.m);
            }
        } else {
            double mx = *std::max_element(o.begin(), o.end()), z = 0;
            for (double q : o) z += std::exp(q - mx);
            double ty = 0;
            for (double q : y) ty += q;
            for (unsigned i = 0; i < s.m; ++i) {
                const double lp = o[i] - mx - std::log(z);
                r -= y[i] * lp;
                dl.push_back(ty * std::exp(lp) - y[i]);
            }
        }
        if (g)
            for (unsigned i = 0; i < s.m; ++i)
                for (std::size_t p = 0; p < g->size(); ++p) (*g)[p] += dl[i] * d[x[s.size() - s.m + i]][p];
        return r;
    }
    // mean loss over a batch and its gradient
    double batch(const std::vector<dvec> &in, const std::vector<dvec> &y, bool ce, dvec &g)
    {
        g.assign(w.size() + b.size(), 0.);
        double r = 0;
        for (std::size_t i = 0; i < in.size(); ++i) r += loss(in[i], y[i], ce, &g);
        for (auto &q : g) q /= static_cast<double>(in.size());
        return r / static_cast<double>(in.size());
    }
    // one epoch of stochastic gradient descent in the given order; returns the mean of the losses of the batches
    double epoch(const std::vector<dvec> &in, const std::vector<dvec> &y, double lr, std::size_t size, bool ce)
    {
        double r = 0;
        unsigned n = 0;
        for (std::size_t at = 0; at < in.size(); at += size) {
            const std::size_t to = std::min(in.size(), at + size);
            dvec g;
            r += batch(std::vector<dvec>(in.begin() + at, in.begin() + to), std::vector<dvec>(y.begin() + at, y.begin() + to), ce, g);
            ++n;
            for (std::size_t p = 0; p < g.size(); ++p) (p < w.size() ? w[p] : b[p - w.size()]) -= lr * g[p];
        }
        return r / n;
    }
};
inline const std::vector<std::string> &net_kernels()
{
    static const std::vector<std::string> n{"tanh", "sig", "ReLu", "ELU", "ISRU", "sin_nu", "cos_nu", "gaussian_nu", "sum", "inv_sum", "abs", "step"};
    return n;
}
} // namespace ref
#endif
