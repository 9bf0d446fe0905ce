// Minimal stand-in for audi::vectorized<T>: element-wise coefficient vector, size-1 operands broadcast.
#ifndef VERIF_SHIM_AUDI_VECTORIZED_HPP
#define VERIF_SHIM_AUDI_VECTORIZED_HPP
#include <algorithm>
#include <cmath>
#include <initializer_list>
#include <ostream>
#include <stdexcept>
#include <type_traits>
#include <utility>
#include <vector>

#include <boost/serialization/vector.hpp>

namespace audi
{
template <typename T>
struct vectorized {
    using value_type = T;
    using size_type = typename std::vector<T>::size_type;
    vectorized() : m_c(1, T(0)) {}
    template <typename U, std::enable_if_t<std::is_arithmetic<U>::value, int> = 0>
    vectorized(U v) : m_c(1, T(v))
    {
    }
    explicit vectorized(const std::vector<T> &c) : m_c(c)
    {
        check();
    }
    explicit vectorized(std::vector<T> &&c) : m_c(std::move(c))
    {
        check();
    }
    vectorized(std::initializer_list<T> l) : m_c(l)
    {
        check();
    }
    size_type size() const
    {
        return m_c.size();
    }
    typename std::vector<T>::const_iterator begin() const
    {
        return m_c.begin();
    }
    typename std::vector<T>::const_iterator end() const
    {
        return m_c.end();
    }
    typename std::vector<T>::iterator begin()
    {
        return m_c.begin();
    }
    typename std::vector<T>::iterator end()
    {
        return m_c.end();
    }
    const T &operator[](size_type i) const
    {
        return m_c.size() == 1u ? m_c[0] : m_c[i];
    }
    T &operator[](size_type i)
    {
        return m_c.size() == 1u ? m_c[0] : m_c[i];
    }
    const std::vector<T> &get_v() const
    {
        return m_c;
    }
    template <typename Op>
    static vectorized zip(const vectorized &a, const vectorized &b, Op op)
    {
        if (a.size() != b.size() && a.size() != 1u && b.size() != 1u) {
            throw std::invalid_argument("Coefficients of different sizes in arithmetics");
        }
        std::vector<T> r(std::max(a.size(), b.size()));
        for (size_type i = 0; i < r.size(); ++i) {
            r[i] = op(a[i], b[i]);
        }
        return vectorized(std::move(r));
    }
    vectorized &operator+=(const vectorized &o)
    {
        return *this = zip(*this, o, [](T a, T b) { return a + b; });
    }
    vectorized &operator-=(const vectorized &o)
    {
        return *this = zip(*this, o, [](T a, T b) { return a - b; });
    }
    vectorized &operator*=(const vectorized &o)
    {
        return *this = zip(*this, o, [](T a, T b) { return a * b; });
    }
    vectorized &operator/=(const vectorized &o)
    {
        return *this = zip(*this, o, [](T a, T b) { return a / b; });
    }
    vectorized operator-() const
    {
        std::vector<T> r(m_c);
        for (auto &v : r) {
            v = -v;
        }
        return vectorized(std::move(r));
    }
    friend vectorized operator+(vectorized a, const vectorized &b)
    {
        return a += b;
    }
    friend vectorized operator-(vectorized a, const vectorized &b)
    {
        return a -= b;
    }
    friend vectorized operator*(vectorized a, const vectorized &b)
    {
        return a *= b;
    }
    friend vectorized operator/(vectorized a, const vectorized &b)
    {
        return a /= b;
    }
    template <typename Op>
    static bool all(const vectorized &a, const vectorized &b, Op op)
    {
        if (a.size() != b.size() && a.size() != 1u && b.size() != 1u) {
            throw std::invalid_argument("Coefficients of different sizes in comparison");
        }
        for (size_type i = 0; i < std::max(a.size(), b.size()); ++i) {
            if (!op(a[i], b[i])) {
                return false;
            }
        }
        return true;
    }
    friend bool operator==(const vectorized &a, const vectorized &b)
    {
        return all(a, b, [](T x, T y) { return x == y; });
    }
    friend bool operator!=(const vectorized &a, const vectorized &b)
    {
        return !(a == b);
    }
    friend bool operator<(const vectorized &a, const vectorized &b)
    {
        return (a.size() == b.size()) ? a.m_c < b.m_c : all(a, b, [](T x, T y) { return x < y; });
    }
    friend bool operator>(const vectorized &a, const vectorized &b)
    {
        return (a.size() == b.size()) ? a.m_c > b.m_c : all(a, b, [](T x, T y) { return x > y; });
    }
    friend std::ostream &operator<<(std::ostream &os, const vectorized &v)
    {
        os << "[";
        for (size_type i = 0; i < v.size(); ++i) {
            os << (i ? ", " : "") << v.m_c[i];
        }
        return os << "]";
    }
    template <typename Archive>
    void serialize(Archive &ar, unsigned)
    {
        ar &m_c;
    }

private:
    void check() const
    {
        if (m_c.empty()) {
            throw std::invalid_argument("Cannot build an empty coefficient_v (initializer)");
        }
    }
    std::vector<T> m_c;
};
} // namespace audi
#endif
