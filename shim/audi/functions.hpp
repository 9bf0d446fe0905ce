#ifndef VERIF_SHIM_AUDI_FUNCTIONS_HPP
#define VERIF_SHIM_AUDI_FUNCTIONS_HPP
#include <cmath>
#include <vector>

#include <audi/gdual.hpp>
#include <audi/vectorized.hpp>

namespace audi
{
#define VERIF_SHIM_FN(f)                                                                                               \
    template <typename T, std::enable_if_t<std::is_arithmetic<T>::value, int> = 0>                                     \
    inline double f(T x)                                                                                               \
    {                                                                                                                  \
        return std::f(static_cast<double>(x));                                                                         \
    }                                                                                                                  \
    inline vectorized<double> f(const vectorized<double> &v)                                                           \
    {                                                                                                                  \
        std::vector<double> r(v.begin(), v.end());                                                                     \
        for (auto &x : r) {                                                                                            \
            x = std::f(x);                                                                                             \
        }                                                                                                              \
        return vectorized<double>(std::move(r));                                                                       \
    }
VERIF_SHIM_FN(exp)
VERIF_SHIM_FN(log)
VERIF_SHIM_FN(sin)
VERIF_SHIM_FN(cos)
VERIF_SHIM_FN(tan)
VERIF_SHIM_FN(tanh)
VERIF_SHIM_FN(sqrt)
VERIF_SHIM_FN(cbrt)
VERIF_SHIM_FN(abs)
#undef VERIF_SHIM_FN

template <typename Cf>
inline gdual<Cf> exp(const gdual<Cf> &d)
{
    std::vector<Cf> c{exp(d.constant_cf())};
    for (unsigned k = 1u; k <= d.get_order(); ++k) {
        c.push_back(c.back() / Cf(static_cast<double>(k)));
    }
    return d.compose(c);
}
template <typename Cf>
inline gdual<Cf> log(const gdual<Cf> &d)
{
    Cf a = d.constant_cf();
    std::vector<Cf> c{log(a)};
    Cf p = Cf(1.) / a;
    for (unsigned k = 1u; k <= d.get_order(); ++k) {
        c.push_back(p / Cf(static_cast<double>(k)));
        p = -p / a;
    }
    return d.compose(c);
}
template <typename Cf>
inline gdual<Cf> sincos_impl(const gdual<Cf> &d, unsigned phase)
{
    Cf s = sin(d.constant_cf()), co = cos(d.constant_cf());
    std::vector<Cf> c;
    double f = 1.;
    for (unsigned k = 0u; k <= d.get_order(); ++k) {
        if (k > 1u) {
            f *= k;
        }
        Cf v = ((k + phase) % 2u == 0u) ? s : co;
        if (((k + phase) / 2u) % 2u == 1u) {
            v = -v;
        }
        c.push_back(v / Cf(f));
    }
    return d.compose(c);
}
template <typename Cf>
inline gdual<Cf> sin(const gdual<Cf> &d)
{
    return sincos_impl(d, 0u);
}
template <typename Cf>
inline gdual<Cf> cos(const gdual<Cf> &d)
{
    return sincos_impl(d, 1u);
}
template <typename Cf>
inline gdual<Cf> tanh(const gdual<Cf> &d)
{
    std::vector<Cf> c{tanh(d.constant_cf())};
    for (unsigned k = 0u; k < d.get_order(); ++k) {
        Cf v = Cf(k == 0u ? 1. : 0.);
        for (unsigned i = 0u; i <= k; ++i) {
            v -= c[i] * c[k - i];
        }
        c.push_back(v / Cf(static_cast<double>(k + 1u)));
    }
    return d.compose(c);
}
template <typename Cf>
inline gdual<Cf> sqrt(const gdual<Cf> &d)
{
    Cf a = d.constant_cf();
    std::vector<Cf> c{sqrt(a)};
    for (unsigned k = 1u; k <= d.get_order(); ++k) {
        c.push_back(c.back() * Cf((0.5 - (k - 1.)) / k) / a);
    }
    return d.compose(c);
}
inline gdual_d abs(const gdual_d &d)
{
    return d.constant_cf() < 0. ? -d : d;
}
inline gdual_v abs(const gdual_v &d)
{
    auto s = d.constant_cf();
    for (auto &x : s) {
        x = x < 0. ? -1. : 1.;
    }
    return d.map_cf([&s](const vectorized<double> &c) { return c * s; });
}
template <typename Cf>
inline gdual<Cf> pow(const gdual<Cf> &d, int n)
{
    gdual<Cf> r(1.);
    for (int i = 0; i < (n < 0 ? -n : n); ++i) {
        r *= d;
    }
    return n < 0 ? 1. / r : r;
}
} // namespace audi
#endif
