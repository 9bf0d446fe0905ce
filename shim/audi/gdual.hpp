// Minimal stand-in for audi::gdual<Cf>: truncated multivariate Taylor polynomials, enough for dcgp.
#ifndef VERIF_SHIM_AUDI_GDUAL_HPP
#define VERIF_SHIM_AUDI_GDUAL_HPP
#include <algorithm>
#include <cmath>
#include <initializer_list>
#include <map>
#include <ostream>
#include <set>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>

#include <boost/serialization/map.hpp>
#include <boost/serialization/string.hpp>
#include <boost/serialization/vector.hpp>

#include <audi/io.hpp>
#include <audi/vectorized.hpp>

namespace audi
{
namespace shim
{
inline bool is_zero(double x)
{
    return x == 0.;
}
inline bool is_zero(const vectorized<double> &v)
{
    return std::all_of(v.begin(), v.end(), [](double x) { return x == 0.; });
}
} // namespace shim

template <typename Cf>
class gdual
{
public:
    using cf_type = Cf;
    using expo = std::vector<unsigned>;
    template <typename T>
    using ar_enabler = std::enable_if_t<std::is_arithmetic<T>::value, int>;

    gdual() : m_order(0u)
    {
        m_p[{}] = Cf(0.);
    }
    gdual(const gdual &) = default;
    gdual(gdual &&) = default;
    gdual &operator=(const gdual &) = default;
    gdual &operator=(gdual &&) = default;
    template <typename T, std::enable_if_t<std::is_arithmetic<T>::value || std::is_same<T, Cf>::value, int> = 0>
    explicit gdual(const T &value) : m_order(0u)
    {
        m_p[{}] = Cf(value);
    }
    template <typename C = Cf, std::enable_if_t<!std::is_same<C, double>::value, int> = 0>
    explicit gdual(const std::vector<double> &v) : m_order(0u)
    {
        m_p[{}] = Cf(v);
    }
    template <typename T>
    explicit gdual(const T &value, const std::string &symbol, unsigned order) : m_order(order)
    {
        if (!symbol.empty() && symbol[0] == 'd') {
            throw std::invalid_argument("symbol names cannot start with the letter d, got: " + symbol);
        }
        m_s = {"d" + symbol};
        m_p[{0u}] = Cf(value);
        if (order > 0u) {
            m_p[{1u}] = Cf(1.);
        }
    }

    unsigned get_order() const
    {
        return m_order;
    }
    const std::vector<std::string> &get_symbol_set() const
    {
        return m_s;
    }
    std::size_t get_symbol_set_size() const
    {
        return m_s.size();
    }
    Cf constant_cf() const
    {
        auto it = m_p.find(expo(m_s.size(), 0u));
        return it == m_p.end() ? Cf(0.) : it->second;
    }
    bool is_zero(double tol) const
    {
        for (const auto &t : m_p) {
            if (!(norm(t.second) <= tol)) {
                return false;
            }
        }
        return true;
    }
    void extend_symbol_set(const std::vector<std::string> &sym)
    {
        std::set<std::string> u(m_s.begin(), m_s.end());
        if (!std::all_of(sym.begin(), sym.end(), [](const std::string &s) { return !s.empty() && s[0] == 'd'; })) {
            throw std::invalid_argument("all symbol names must start with the letter d");
        }
        u.insert(sym.begin(), sym.end());
        remap(std::vector<std::string>(u.begin(), u.end()));
    }
    Cf find_cf(const expo &c) const
    {
        if (c.size() != m_s.size()) {
            throw std::invalid_argument("find_cf: wrong number of exponents");
        }
        check_order(c);
        auto it = m_p.find(c);
        return it == m_p.end() ? Cf(0.) : it->second;
    }
    Cf get_derivative(const expo &c) const
    {
        double f = 1.;
        for (auto e : c) {
            for (unsigned i = 2u; i <= e; ++i) {
                f *= i;
            }
        }
        return find_cf(c) * Cf(f);
    }
    Cf get_derivative(std::initializer_list<unsigned> c) const
    {
        return get_derivative(expo(c));
    }
    Cf get_derivative(const std::unordered_map<std::string, unsigned> &d) const
    {
        expo c(m_s.size(), 0u);
        unsigned tot = 0u;
        bool missing = false;
        for (const auto &p : d) {
            tot += p.second;
            auto it = std::find(m_s.begin(), m_s.end(), p.first);
            if (it == m_s.end()) {
                missing = missing || p.second > 0u;
            } else {
                c[static_cast<std::size_t>(it - m_s.begin())] = p.second;
            }
        }
        if (tot > m_order) {
            throw std::invalid_argument("requested derivative order is beyond the truncated order.");
        }
        return missing ? Cf(0.) : get_derivative(c);
    }

    gdual &operator+=(const gdual &o)
    {
        return *this = add(*this, o, false);
    }
    gdual &operator-=(const gdual &o)
    {
        return *this = add(*this, o, true);
    }
    gdual &operator*=(const gdual &o)
    {
        return *this = mul(*this, o);
    }
    gdual &operator/=(const gdual &o)
    {
        return *this = div(*this, o);
    }
    template <typename T, ar_enabler<T> = 0>
    gdual &operator+=(const T &v)
    {
        return *this += gdual(Cf(v));
    }
    template <typename T, ar_enabler<T> = 0>
    gdual &operator-=(const T &v)
    {
        return *this -= gdual(Cf(v));
    }
    template <typename T, ar_enabler<T> = 0>
    gdual &operator*=(const T &v)
    {
        for (auto &t : m_p) {
            t.second *= Cf(v);
        }
        return *this;
    }
    template <typename T, ar_enabler<T> = 0>
    gdual &operator/=(const T &v)
    {
        for (auto &t : m_p) {
            t.second /= Cf(v);
        }
        return *this;
    }
    gdual operator-() const
    {
        gdual r(*this);
        for (auto &t : r.m_p) {
            t.second = -t.second;
        }
        return r;
    }
    gdual operator+() const
    {
        return *this;
    }

    // sum_k c[k] * (this - constant_cf)^k, k = 0..order (Horner)
    gdual compose(const std::vector<Cf> &c) const
    {
        gdual h(*this);
        h.m_p.erase(expo(m_s.size(), 0u));
        gdual r(c.back());
        r.m_order = m_order;
        for (std::size_t k = c.size() - 1u; k-- > 0u;) {
            r *= h;
            r += gdual(c[k]);
        }
        r.m_order = m_order;
        std::vector<std::string> s = m_s;
        r.extend_raw(s);
        return r;
    }
    template <typename F>
    gdual map_cf(F f) const
    {
        gdual r(*this);
        for (auto &t : r.m_p) {
            t.second = f(t.second);
        }
        return r;
    }

    friend gdual operator+(const gdual &a, const gdual &b)
    {
        return add(a, b, false);
    }
    friend gdual operator-(const gdual &a, const gdual &b)
    {
        return add(a, b, true);
    }
    friend gdual operator*(const gdual &a, const gdual &b)
    {
        return mul(a, b);
    }
    friend gdual operator/(const gdual &a, const gdual &b)
    {
        return div(a, b);
    }
#define VERIF_SHIM_MIXED(OP)                                                                                           \
    template <typename T, ar_enabler<T> = 0>                                                                           \
    friend gdual operator OP(const gdual &a, const T &b)                                                               \
    {                                                                                                                  \
        return a OP gdual(Cf(b));                                                                                      \
    }                                                                                                                  \
    template <typename T, ar_enabler<T> = 0>                                                                           \
    friend gdual operator OP(const T &a, const gdual &b)                                                               \
    {                                                                                                                  \
        return gdual(Cf(a)) OP b;                                                                                      \
    }
    VERIF_SHIM_MIXED(+)
    VERIF_SHIM_MIXED(-)
    VERIF_SHIM_MIXED(*)
    VERIF_SHIM_MIXED(/)
#undef VERIF_SHIM_MIXED
    friend bool operator==(const gdual &a, const gdual &b)
    {
        auto d = a - b;
        return std::all_of(d.m_p.begin(), d.m_p.end(), [](const auto &t) { return shim::is_zero(t.second); });
    }
    friend bool operator!=(const gdual &a, const gdual &b)
    {
        return !(a == b);
    }
    template <typename T, ar_enabler<T> = 0>
    friend bool operator==(const gdual &a, const T &b)
    {
        return a == gdual(Cf(b));
    }
    friend bool operator<(const gdual &a, const gdual &b)
    {
        return a.constant_cf() < b.constant_cf();
    }
    friend bool operator>(const gdual &a, const gdual &b)
    {
        return a.constant_cf() > b.constant_cf();
    }
    friend std::ostream &operator<<(std::ostream &os, const gdual &g)
    {
        bool first = true;
        for (const auto &t : g.m_p) {
            if (!first) {
                os << "+";
            }
            first = false;
            os << t.second;
            for (std::size_t i = 0; i < g.m_s.size(); ++i) {
                if (t.first[i]) {
                    os << "*" << g.m_s[i] << "**" << t.first[i];
                }
            }
        }
        return os;
    }
    template <typename Archive>
    void serialize(Archive &ar, unsigned)
    {
        ar &m_s;
        ar &m_p;
        ar &m_order;
    }

private:
    static double norm(double x)
    {
        return std::abs(x);
    }
    static double norm(const vectorized<double> &v)
    {
        double m = 0.;
        for (auto x : v) {
            m = std::max(m, std::abs(x));
        }
        return m;
    }
    void check_order(const expo &c) const
    {
        unsigned tot = 0u;
        for (auto e : c) {
            tot += e;
        }
        if (tot > m_order) {
            throw std::invalid_argument("requested derivative order is beyond the truncated order.");
        }
    }
    void remap(const std::vector<std::string> &s)
    {
        if (s == m_s) {
            return;
        }
        std::vector<std::size_t> pos(m_s.size());
        for (std::size_t i = 0; i < m_s.size(); ++i) {
            pos[i] = static_cast<std::size_t>(std::find(s.begin(), s.end(), m_s[i]) - s.begin());
        }
        std::map<expo, Cf> p;
        for (const auto &t : m_p) {
            expo e(s.size(), 0u);
            for (std::size_t i = 0; i < m_s.size(); ++i) {
                e[pos[i]] = t.first[i];
            }
            p.emplace(std::move(e), t.second);
        }
        m_s = s;
        m_p = std::move(p);
    }
    void extend_raw(const std::vector<std::string> &sym)
    {
        std::set<std::string> u(m_s.begin(), m_s.end());
        u.insert(sym.begin(), sym.end());
        remap(std::vector<std::string>(u.begin(), u.end()));
    }
    static void align(gdual &a, gdual &b)
    {
        a.extend_raw(b.m_s);
        b.remap(a.m_s);
    }
    static gdual add(const gdual &a_, const gdual &b_, bool neg)
    {
        gdual a(a_), b(b_);
        align(a, b);
        a.m_order = std::max(a.m_order, b.m_order);
        for (const auto &t : b.m_p) {
            auto it = a.m_p.find(t.first);
            if (it == a.m_p.end()) {
                a.m_p.emplace(t.first, neg ? -t.second : t.second);
            } else if (neg) {
                it->second -= t.second;
            } else {
                it->second += t.second;
            }
        }
        return a;
    }
    static gdual mul(const gdual &a_, const gdual &b_)
    {
        gdual a(a_), b(b_);
        align(a, b);
        gdual r;
        r.m_s = a.m_s;
        r.m_p.clear();
        r.m_order = std::max(a.m_order, b.m_order);
        for (const auto &t : a.m_p) {
            for (const auto &u : b.m_p) {
                expo e(t.first);
                unsigned tot = 0u;
                for (std::size_t i = 0; i < e.size(); ++i) {
                    e[i] += u.first[i];
                    tot += e[i];
                }
                if (tot > r.m_order) {
                    continue;
                }
                Cf v = t.second * u.second;
                auto it = r.m_p.find(e);
                if (it == r.m_p.end()) {
                    r.m_p.emplace(std::move(e), v);
                } else {
                    it->second += v;
                }
            }
        }
        return r;
    }
    static gdual div(const gdual &a, const gdual &b)
    {
        // constant / constant and x / constant exactly as on the coefficients
        if (b.m_order == 0u) {
            gdual r(a);
            Cf c = b.constant_cf();
            for (auto &t : r.m_p) {
                t.second /= c;
            }
            r.extend_raw(b.m_s);
            return r;
        }
        Cf c = b.constant_cf(), inv = Cf(1.) / c, cur = inv;
        std::vector<Cf> k;
        for (unsigned i = 0u; i <= std::max(a.m_order, b.m_order); ++i) {
            k.push_back(cur);
            cur = -cur * inv;
        }
        gdual bb(b);
        bb.m_order = std::max(a.m_order, b.m_order);
        return mul(a, bb.compose(k));
    }

    std::vector<std::string> m_s; // sorted
    std::map<expo, Cf> m_p;
    unsigned m_order;
};

using gdual_d = gdual<double>;
using gdual_v = gdual<vectorized<double>>;

template <typename T>
struct is_gdual : std::false_type {
};
template <typename T>
struct is_gdual<gdual<T>> : std::true_type {
};
} // namespace audi
#endif
