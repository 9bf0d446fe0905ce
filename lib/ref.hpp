// Reference model of CGP expressions, written from the documented encoding only (no dcgp code involved).
#ifndef VERIF_REF_HPP
#define VERIF_REF_HPP
#include <algorithm>
#include <cmath>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace ref
{
using uvec = std::vector<unsigned>;
using dvec = std::vector<double>;
// a kernel of the reference model: value from its ordered inputs
using fun = std::function<double(const dvec &)>;

inline double sum_of(const dvec &v)
{
    double s = v[0];
    for (std::size_t i = 1; i < v.size(); ++i) {
        s += v[i];
    }
    return s;
}
// The documented kernels (doc/sphinx/docs/cpp/kernel_list.rst)
inline fun kernel_by_name(const std::string &n)
{
    if (n == "sum") return [](const dvec &v) { return sum_of(v); };
    if (n == "diff")
        return [](const dvec &v) {
            double s = v[0];
            for (std::size_t i = 1; i < v.size(); ++i) s -= v[i];
            return s;
        };
    if (n == "mul")
        return [](const dvec &v) {
            double s = v[0];
            for (std::size_t i = 1; i < v.size(); ++i) s *= v[i];
            return s;
        };
    if (n == "div")
        return [](const dvec &v) {
            double s = v[0];
            for (std::size_t i = 1; i < v.size(); ++i) s /= v[i];
            return s;
        };
    if (n == "pdiv")
        return [](const dvec &v) {
            double d = 1.;
            for (std::size_t i = 1; i < v.size(); ++i) d *= v[i];
            double s = v[0] / d;
            return std::isfinite(s) ? s : 1.;
        };
    if (n == "sig") return [](const dvec &v) { return 1. / (1. + std::exp(-sum_of(v))); };
    if (n == "tanh") return [](const dvec &v) { return std::tanh(sum_of(v)); };
    if (n == "ReLu") return [](const dvec &v) { double s = sum_of(v); return s < 0. ? 0. : s; };
    if (n == "ELU") return [](const dvec &v) { double s = sum_of(v); return s < 0. ? std::exp(s) - 1. : s; };
    if (n == "ISRU") return [](const dvec &v) { double s = sum_of(v); return s / std::sqrt(1. + s * s); };
    if (n == "sin_nu") return [](const dvec &v) { return std::sin(sum_of(v)); };
    if (n == "cos_nu") return [](const dvec &v) { return std::cos(sum_of(v)); };
    if (n == "gaussian_nu") return [](const dvec &v) { double s = sum_of(v); return std::exp(-s * s); };
    if (n == "inv_sum") return [](const dvec &v) { return -sum_of(v); };
    if (n == "abs") return [](const dvec &v) { return std::abs(sum_of(v)); };
    if (n == "step") return [](const dvec &v) { return sum_of(v) < 0. ? 0. : 1.; };
    if (n == "sin") return [](const dvec &v) { return std::sin(v[0]); };
    if (n == "cos") return [](const dvec &v) { return std::cos(v[0]); };
    if (n == "log") return [](const dvec &v) { return std::log(v[0]); };
    if (n == "exp") return [](const dvec &v) { return std::exp(v[0]); };
    if (n == "gaussian") return [](const dvec &v) { return std::exp(-v[0] * v[0]); };
    if (n == "sqrt") return [](const dvec &v) { return std::sqrt(v[0]); };
    if (n == "psqrt") return [](const dvec &v) { return std::sqrt(std::abs(v[0])); };
    return nullptr;
}
inline const std::vector<std::string> &kernel_names()
{
    static const std::vector<std::string> n{"sum",  "diff",   "mul",    "div",         "pdiv",    "sig", "tanh", "ReLu",
                                            "ELU",  "ISRU",   "sin_nu", "cos_nu",      "gaussian_nu", "inv_sum", "abs",
                                            "step", "sin",    "cos",    "log",         "exp",     "gaussian", "sqrt", "psqrt"};
    return n;
}

struct shape {
    unsigned n, m, r, c, l; // n includes the ephemeral constants
    uvec arity;             // one per column
    unsigned nf;
    shape(unsigned n_, unsigned m_, unsigned r_, unsigned c_, unsigned l_, uvec a_, unsigned f_)
        : n(n_), m(m_), r(r_), c(c_), l(l_), arity(std::move(a_)), nf(f_)
    {
    }
    unsigned nodes() const
    {
        return n + r * c;
    }
    // column of a node; inputs live in column -1, outputs are read by column c
    int col(unsigned node) const
    {
        return node < n ? -1 : static_cast<int>((node - n) / r);
    }
    mutable unsigned sz = 0;
    unsigned size() const
    {
        if (sz) return sz;
        unsigned s = m;
        for (unsigned i = 0; i < c; ++i) {
            s += r * (1u + arity[i]);
        }
        return sz = s;
    }
    // first gene of a (non input) node
    mutable std::vector<unsigned> gcache;
    unsigned gene(unsigned node) const
    {
        if (gcache.empty()) {
            for (unsigned i = 0; i <= nodes(); ++i) gcache.push_back(i < n ? 0u : compute_gene(i));
        }
        return gcache[node];
    }
    unsigned compute_gene(unsigned node) const
    {
        unsigned g = 0, id = n;
        while (id < node) {
            g += 1u + arity[static_cast<unsigned>(col(id))];
            ++id;
        }
        return g;
    }
    unsigned ar(unsigned node) const
    {
        return arity[static_cast<unsigned>(col(node))];
    }
    // what gene g is: node it belongs to (nodes() for outputs) and position inside it (0 = function gene)
    std::pair<unsigned, unsigned> locate(unsigned g) const
    {
        unsigned at = 0;
        for (unsigned id = n; id < nodes(); ++id) {
            if (g < at + 1u + ar(id)) {
                return {id, g - at};
            }
            at += 1u + ar(id);
        }
        return {nodes(), g - at};
    }
    // may a reader sitting in column `at` be wired to `node`? (acyclic and within levels-back)
    bool wire_ok(int at, unsigned node) const
    {
        int d = at - col(node);
        return d >= 1 && static_cast<unsigned>(d) <= l;
    }
    // the allowed values of gene g
    mutable std::vector<std::vector<unsigned>> cache;
    const std::vector<unsigned> &allowed(unsigned g) const
    {
        if (cache.empty()) {
            for (unsigned i = 0; i < size(); ++i) cache.push_back(compute_allowed(i));
        }
        return cache[g];
    }
    std::vector<unsigned> compute_allowed(unsigned g) const
    {
        auto p = locate(g);
        std::vector<unsigned> v;
        if (p.first < nodes() && p.second == 0u) {
            for (unsigned f = 0; f < nf; ++f) v.push_back(f);
        } else {
            int at = p.first < nodes() ? col(p.first) : static_cast<int>(c);
            for (unsigned k = 0; k < nodes(); ++k) {
                if (wire_ok(at, k)) v.push_back(k);
            }
        }
        return v;
    }
    bool valid(const uvec &x) const
    {
        if (x.size() != size()) return false;
        for (unsigned g = 0; g < size(); ++g) {
            const auto &a = allowed(g);
            if (std::find(a.begin(), a.end(), x[g]) == a.end()) return false;
        }
        return true;
    }
    void reach(const uvec &x, unsigned node, std::set<unsigned> &seen) const
    {
        if (!seen.insert(node).second || node < n) return;
        for (unsigned j = 1; j <= ar(node); ++j) {
            reach(x, x[gene(node) + j], seen);
        }
    }
    std::set<unsigned> active_nodes(const uvec &x) const
    {
        std::set<unsigned> s;
        for (unsigned o = 0; o < m; ++o) reach(x, x[size() - m + o], s);
        return s;
    }
    std::set<unsigned> active_genes(const uvec &x) const
    {
        std::set<unsigned> s;
        for (auto node : active_nodes(x)) {
            if (node >= n) {
                for (unsigned j = 0; j <= ar(node); ++j) s.insert(gene(node) + j);
            }
        }
        for (unsigned o = 0; o < m; ++o) s.insert(size() - m + o);
        return s;
    }
    // the same as sorted vectors, remembered per chromosome
    mutable std::map<uvec, std::pair<uvec, uvec>> memo;
    const std::pair<uvec, uvec> &active(const uvec &x) const
    {
        auto it = memo.find(x);
        if (it != memo.end()) return it->second;
        if (memo.size() > 50000u) memo.clear();
        auto a = active_nodes(x);
        auto g = active_genes(x);
        return memo[x] = {uvec(a.begin(), a.end()), uvec(g.begin(), g.end())};
    }
    double value(const uvec &x, unsigned node, const dvec &in, const std::vector<fun> &f) const
    {
        if (node < n) return in[node];
        dvec a;
        for (unsigned j = 1; j <= ar(node); ++j) a.push_back(value(x, x[gene(node) + j], in, f));
        return f[x[gene(node)]](a);
    }
    // in: inputs followed by the ephemeral constants
    dvec eval(const uvec &x, const dvec &in, const std::vector<fun> &f) const
    {
        dvec r;
        if (nodes() <= 12u) {
            for (unsigned o = 0; o < m; ++o) r.push_back(value(x, x[size() - m + o], in, f));
            return r;
        }
        // large: every active node once, in order
        dvec v(nodes(), 0.);
        for (auto node : active(x).first) {
            if (node < n) {
                v[node] = in[node];
                continue;
            }
            dvec a;
            for (unsigned j = 1; j <= ar(node); ++j) a.push_back(v[x[gene(node) + j]]);
            v[node] = f[x[gene(node)]](a);
        }
        for (unsigned o = 0; o < m; ++o) r.push_back(v[x[size() - m + o]]);
        return r;
    }
    std::string str() const
    {
        std::string s = "n" + std::to_string(n) + "m" + std::to_string(m) + "r" + std::to_string(r) + "c"
                        + std::to_string(c) + "l" + std::to_string(l) + "a";
        for (auto a : arity) s += std::to_string(a);
        return s + "f" + std::to_string(nf);
    }
};

// calls f(x) for every chromosome of the shape if there are at most `cap`; otherwise returns false without calling
template <typename F>
bool all_chromosomes(const shape &s, std::uint64_t cap, F f)
{
    std::vector<std::vector<unsigned>> al;
    double tot = 1;
    for (unsigned g = 0; g < s.size(); ++g) {
        al.push_back(s.allowed(g));
        tot *= static_cast<double>(al.back().size());
    }
    uvec x(s.size());
    if (tot <= static_cast<double>(cap)) {
        std::vector<unsigned> d(s.size(), 0u);
        while (true) {
            for (unsigned g = 0; g < s.size(); ++g) x[g] = al[g][d[g]];
            f(static_cast<const uvec &>(x));
            unsigned i = 0;
            for (; i < d.size(); ++i) {
                if (++d[i] < al[i].size()) break;
                d[i] = 0;
            }
            if (i == d.size()) return true;
        }
    }
    return false;
}
// every chromosome differing from `base` in at most `d` genes (deviation-bounded exploration of larger shapes)
template <typename F>
void near_chromosomes(const shape &s, const uvec &base, unsigned d, F f)
{
    uvec x(base);
    std::function<void(unsigned, unsigned)> go = [&](unsigned from, unsigned left) {
        f(static_cast<const uvec &>(x));
        if (left == 0u) return;
        for (unsigned g = from; g < s.size(); ++g) {
            for (auto v : s.allowed(g)) {
                if (v == base[g]) continue;
                x[g] = v;
                go(g + 1u, left - 1u);
            }
            x[g] = base[g];
        }
    };
    go(0u, d);
}
// a few structurally different base chromosomes: lowest, highest, alternating, middle
inline std::vector<uvec> bases(const shape &s)
{
    std::vector<uvec> r(4, uvec(s.size()));
    for (unsigned g = 0; g < s.size(); ++g) {
        auto a = s.allowed(g);
        r[0][g] = a.front();
        r[1][g] = a.back();
        r[2][g] = (g % 2u) ? a.front() : a.back();
        r[3][g] = a[(a.size() + g) / 2u % a.size()];
    }
    return r;
}
// every node reads its predecessor first and inputs (or the lowest allowed nodes) after it: all nodes may be active, and the
// formula of an output stays linear in the number of nodes
inline uvec chain(const shape &s, unsigned spread = 1u)
{
    uvec x(s.size());
    for (unsigned g = 0; g < s.size(); ++g) {
        const auto &a = s.allowed(g);
        auto p = s.locate(g);
        if (p.first == s.nodes()) {
            x[g] = a[a.size() - 1u - (p.second * spread) % a.size()];
        } else if (p.second == 0u) {
            x[g] = a[p.first % a.size()];
        } else if (p.second == 1u) {
            x[g] = a.back();
        } else {
            x[g] = a[(p.first + p.second) % std::min<std::size_t>(a.size(), s.n)];
        }
    }
    return x;
}
// shapes far beyond those explored exhaustively: many nodes, columns, rows, inputs, outputs, arities, deep chains
inline std::vector<shape> large(unsigned nf)
{
    uvec alt;
    for (unsigned i = 0; i < 20u; ++i) alt.push_back(2u + i % 2u);
    return {shape(12, 3, 5, 20, 20, alt, nf),         shape(2, 1, 1, 150, 1, uvec(150, 1u), nf), shape(3, 1, 1, 70, 71, uvec(70, 2u), nf),
            shape(3, 14, 2, 4, 5, {2, 5, 1, 7}, nf), shape(2, 2, 40, 3, 2, {2, 3, 2}, nf),      shape(40, 11, 1, 2, 3, {12, 3}, nf)};
}
// chromosomes of a large shape: the bases, two chains, and those that differ from the chain in one gene (lowest and highest
// alternative, every `step`-th gene)
inline std::vector<uvec> large_chromosomes(const shape &s, unsigned step = 3u, bool formulas = false)
{
    std::vector<uvec> r;
    if (!formulas) r = bases(s);
    const uvec c = chain(s);
    r.push_back(c);
    r.push_back(chain(s, 3u));
    for (unsigned g = 0; g < s.size(); g += step) {
        const auto &a = s.allowed(g);
        auto p = s.locate(g);
        for (auto v : {a.front(), a.back()}) {
            if (v == c[g] || (formulas && p.first < s.nodes() && p.second > 1u && v >= s.n)) continue;
            uvec y(c);
            y[g] = v;
            r.push_back(y);
        }
    }
    return r;
}
inline std::uint64_t count_chromosomes(const shape &s)
{
    double tot = 1;
    for (unsigned g = 0; g < s.size(); ++g) tot *= static_cast<double>(s.allowed(g).size());
    return tot > 1e18 ? ~0ull : static_cast<std::uint64_t>(tot);
}
} // namespace ref
#endif
