#ifndef VERIF_SHIM_AUDI_IO_HPP
#define VERIF_SHIM_AUDI_IO_HPP
#include <iostream>
#include <map>
#include <string>
#include <unordered_map>
#include <utility>
#include <vector>

#include <boost/lexical_cast.hpp>
namespace audi
{
template <typename T>
inline void stream_one(std::ostream &os, const T &x)
{
    os << x;
}
inline void stream_one(std::ostream &os, const bool &b)
{
    os << (b ? "true" : "false");
}
template <typename T>
inline void stream_one(std::ostream &os, const std::vector<T> &v);
template <typename T, typename U>
inline void stream_one(std::ostream &os, const std::pair<T, U> &p)
{
    os << '(';
    stream_one(os, p.first);
    os << ',';
    stream_one(os, p.second);
    os << ')';
}
template <typename T>
inline void stream_one(std::ostream &os, const std::vector<T> &v)
{
    os << '[';
    for (typename std::vector<T>::size_type i = 0; i < v.size(); ++i) {
        if (i) {
            os << ", ";
        }
        stream_one(os, v[i]);
    }
    os << ']';
}
template <typename... Args>
inline void stream(std::ostream &os, const Args &...args)
{
    (stream_one(os, args), ...);
}
template <typename... Args>
inline void print(const Args &...args)
{
    stream(std::cout, args...);
}
} // namespace audi
#endif
