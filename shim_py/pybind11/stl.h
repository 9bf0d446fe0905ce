#ifndef VERIF_PYBIND11_STL_H
#define VERIF_PYBIND11_STL_H
#include <pybind11/pybind11.h>
namespace pybind11
{
namespace detail
{
template <typename T>
struct type_caster<std::vector<T>> : value_caster<std::vector<T>> {
    bool load(PyObject *p, bool convert)
    {
        if (!PySequence_Check(p) || PyUnicode_Check(p) || PyBytes_Check(p)) {
            return false;
        }
        this->value.clear();
        const auto n = PySequence_Size(p);
        if (n < 0) {
            PyErr_Clear();
            return false;
        }
        for (ssize_t i = 0; i < n; ++i) {
            object o(PySequence_GetItem(p, i), stolen_t{});
            caster<T> c;
            if (!o || !c.load(o.ptr(), convert)) {
                PyErr_Clear();
                return false;
            }
            this->value.push_back(caster<T>::template get<T>(c));
        }
        return true;
    }
    static PyObject *cast(const std::vector<T> &v)
    {
        object l = check(PyList_New(static_cast<ssize_t>(v.size())));
        ssize_t i = 0;
        for (const auto &x : v) {
            PyList_SET_ITEM(l.ptr(), i++, check(to_py(x)).release());
        }
        return l.release();
    }
};
template <typename... A>
struct type_caster<std::tuple<A...>> : value_caster<std::tuple<A...>> {
    static PyObject *cast(const std::tuple<A...> &t)
    {
        return std::apply([](const auto &...x) { return pybind11::make_tuple(x...).release(); }, t);
    }
};
template <typename A, typename B>
struct type_caster<std::pair<A, B>> : value_caster<std::pair<A, B>> {
    bool load(PyObject *p, bool convert)
    {
        if (!PySequence_Check(p) || PySequence_Size(p) != 2) {
            PyErr_Clear();
            return false;
        }
        object a(PySequence_GetItem(p, 0), stolen_t{}), b(PySequence_GetItem(p, 1), stolen_t{});
        caster<A> ca;
        caster<B> cb;
        if (!a || !b || !ca.load(a.ptr(), convert) || !cb.load(b.ptr(), convert)) {
            PyErr_Clear();
            return false;
        }
        this->value = std::pair<A, B>(caster<A>::template get<A>(ca), caster<B>::template get<B>(cb));
        return true;
    }
    static PyObject *cast(const std::pair<A, B> &t)
    {
        return pybind11::make_tuple(t.first, t.second).release();
    }
};
} // namespace detail
} // namespace pybind11
#endif
