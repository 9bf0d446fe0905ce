#ifndef VERIF_COMMON_HPP
#define VERIF_COMMON_HPP
#include "mc.hpp"
#include "ref.hpp"
#include <dcgp/expression.hpp>
#include <dcgp/kernel_set.hpp>

namespace hc
{
using dcgp::expression;
using dcgp::kernel;
using dcgp::kernel_set;
using ref::dvec;
using ref::shape;
using ref::uvec;

template <typename T = double>
std::vector<kernel<T>> kernels(const std::vector<std::string> &names)
{
    return kernel_set<T>(names)();
}
inline std::vector<ref::fun> ref_kernels(const std::vector<std::string> &names)
{
    std::vector<ref::fun> r;
    for (auto &n : names) r.push_back(ref::kernel_by_name(n));
    return r;
}
template <typename T>
std::vector<double> eph_as_double(const expression<T> &e);
template <>
inline std::vector<double> eph_as_double(const expression<double> &e)
{
    return e.get_eph_val();
}
// every observable of an expression that must be consistent with its chromosome; returns "" or what is wrong
template <typename Ex>
std::string inconsistent(const Ex &e, const shape &s)
{
    const uvec x(e.get().begin(), e.get().end());
    if (e.get_n() != s.n || e.get_m() != s.m || e.get_r() != s.r || e.get_c() != s.c || e.get_l() != s.l)
        return "structural parameters changed";
    if (uvec(e.get_arity().begin(), e.get_arity().end()) != s.arity) return "arity changed";
    if (e.get_f().size() != s.nf) return "number of kernels changed";
    if (!s.valid(x)) return "chromosome out of its bounds: " + mc::str(x);
    const auto &act = s.active(x);
    const uvec &an = act.first, &ag = act.second;
    if (an != uvec(e.get_active_nodes().begin(), e.get_active_nodes().end()))
        return "active nodes of " + mc::str(x) + " are " + mc::str(e.get_active_nodes()) + " instead of " + mc::str(an);
    uvec g(e.get_active_genes().begin(), e.get_active_genes().end());
    if (ag != g) return "active genes of " + mc::str(x) + " are " + mc::str(g) + " instead of " + mc::str(ag);
    for (unsigned i = 0; i < s.nodes() + 2u; ++i) {
        if (e.is_active_node(i) != std::binary_search(an.begin(), an.end(), i)) return "is_active_node(" + std::to_string(i) + ") is wrong";
    }
    for (unsigned i = 0; i < s.size() + 2u; ++i) {
        if (e.is_active_gene(i) != std::binary_search(ag.begin(), ag.end(), i)) return "is_active_gene(" + std::to_string(i) + ") is wrong";
    }
    return "";
}
// all shapes within the given maxima; `eph` is included in n
inline std::vector<shape> shapes(unsigned nmax, unsigned mmax, unsigned rmax, unsigned cmax, unsigned amax,
                                 unsigned fmax)
{
    std::vector<shape> v;
    for (unsigned c = 1; c <= cmax; ++c)
        for (unsigned r = 1; r <= rmax; ++r)
            for (unsigned n = 1; n <= nmax; ++n)
                for (unsigned m = 1; m <= mmax; ++m)
                    for (unsigned l = 1; l <= c + 1u; ++l)
                        for (unsigned f = 1; f <= fmax; ++f)
                            mc::product(std::vector<unsigned>(c, amax), [&](const uvec &a) {
                                uvec ar(a);
                                for (auto &q : ar) ++q;
                                v.push_back(shape{n, m, r, c, l, ar, f});
                            });
    return v;
}
} // namespace hc
#endif
