// A small stand-in for pybind11 (absent here), written from its documentation: enough to compile the bindings of dcgpy
// against the real CPython, with pybind11's overload resolution (a pass without, then one with implicit conversions),
// argument names and defaults, exception translation, conversions by value, properties and pickling.
#ifndef VERIF_PYBIND11_H
#define VERIF_PYBIND11_H
#define PY_SSIZE_T_CLEAN
#include <Python.h>

#include <cstring>
#include <functional>
#include <memory>
#include <new>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <unordered_map>
#include <utility>
#include <vector>

namespace pybind11
{
using ssize_t = Py_ssize_t;
using size_t = std::size_t;

class cast_error : public std::runtime_error
{
public:
    cast_error(const std::string &s = "Unable to cast Python instance to C++ type") : std::runtime_error(s) {}
};
class reference_cast_error : public cast_error
{
};
class index_error : public std::runtime_error
{
public:
    using std::runtime_error::runtime_error;
};
class value_error : public std::runtime_error
{
public:
    using std::runtime_error::runtime_error;
};
class type_error : public std::runtime_error
{
public:
    using std::runtime_error::runtime_error;
};

// Fetches the Python error that is set.
class error_already_set : public std::exception
{
public:
    error_already_set()
    {
        PyObject *e = PyErr_GetRaisedException();
        m_e = std::shared_ptr<PyObject>(e, [](PyObject *p) { Py_XDECREF(p); });
        m_what = e ? Py_TYPE(e)->tp_name : "unknown error";
        if (PyObject *s = e ? PyObject_Str(e) : nullptr) {
            m_what += std::string(": ") + PyUnicode_AsUTF8(s);
            Py_DECREF(s);
        }
        PyErr_Clear();
    }
    const char *what() const noexcept override
    {
        return m_what.c_str();
    }
    void restore() const
    {
        Py_XINCREF(m_e.get());
        PyErr_SetRaisedException(m_e.get());
    }

private:
    std::shared_ptr<PyObject> m_e;
    std::string m_what;
};

class object;
class tuple;
namespace detail
{
template <typename T, typename = void>
struct type_caster;
template <typename T>
using caster = type_caster<std::remove_cv_t<std::remove_reference_t<T>>>;
template <typename T>
PyObject *to_py(T &&);
} // namespace detail

struct item_accessor;
class handle
{
public:
    handle() = default;
    handle(PyObject *p) : m_ptr(p) {}
    PyObject *ptr() const
    {
        return m_ptr;
    }
    explicit operator bool() const
    {
        return m_ptr != nullptr;
    }
    object attr(const char *n) const;
    template <typename... A>
    object operator()(A &&...a) const;
    object operator[](ssize_t i) const;
    template <typename T>
    T cast() const;
    bool is_none() const
    {
        return m_ptr == Py_None;
    }

protected:
    PyObject *m_ptr = nullptr;
};

struct borrowed_t {
};
struct stolen_t {
};
class object : public handle
{
public:
    object() = default;
    object(PyObject *p, borrowed_t) : handle(p)
    {
        Py_XINCREF(m_ptr);
    }
    object(PyObject *p, stolen_t) : handle(p) {}
    object(const object &o) : handle(o.m_ptr)
    {
        Py_XINCREF(m_ptr);
    }
    object(object &&o) noexcept : handle(o.m_ptr)
    {
        o.m_ptr = nullptr;
    }
    object &operator=(object o)
    {
        std::swap(m_ptr, o.m_ptr);
        return *this;
    }
    ~object()
    {
        Py_XDECREF(m_ptr);
    }
    PyObject *release()
    {
        PyObject *p = m_ptr;
        m_ptr = nullptr;
        return p;
    }
};
inline object check(PyObject *p)
{
    if (!p) {
        throw error_already_set();
    }
    return object(p, stolen_t{});
}
inline object handle::attr(const char *n) const
{
    return check(PyObject_GetAttrString(m_ptr, n));
}
inline object handle::operator[](ssize_t i) const
{
    return check(PySequence_GetItem(m_ptr, i));
}
template <typename... A>
object handle::operator()(A &&...a) const
{
    object t = check(PyTuple_New(sizeof...(A)));
    ssize_t i = 0;
    (void)i;
    (PyTuple_SET_ITEM(t.ptr(), i++, check(detail::to_py(std::forward<A>(a))).release()), ...);
    return check(PyObject_Call(m_ptr, t.ptr(), nullptr));
}
template <typename T>
T cast(const handle &h)
{
    detail::caster<T> c;
    if (!h.ptr() || !c.load(h.ptr(), true)) {
        PyErr_Clear();
        throw cast_error();
    }
    return detail::caster<T>::template get<T>(c);
}
template <typename T>
T handle::cast() const
{
    return pybind11::cast<T>(*this);
}
inline size_t len(const handle &h)
{
    const auto n = PyObject_Size(h.ptr());
    if (n < 0) {
        throw error_already_set();
    }
    return static_cast<size_t>(n);
}

class bytes : public object
{
public:
    bytes(const char *p, size_t n) : object(check(PyBytes_FromStringAndSize(p, static_cast<ssize_t>(n)))) {}
    static bool is(PyObject *p)
    {
        return PyBytes_Check(p);
    }
};
class tuple : public object
{
public:
    tuple() : object(check(PyTuple_New(0))) {}
    explicit tuple(object o) : object(std::move(o)) {}
    static bool is(PyObject *p)
    {
        return PyTuple_Check(p);
    }
};
class list : public object
{
public:
    list() : object(check(PyList_New(0))) {}
    explicit list(object o) : object(std::move(o)) {}
    static bool is(PyObject *p)
    {
        return PyList_Check(p);
    }
    template <typename T>
    void append(T &&x)
    {
        object o = check(detail::to_py(std::forward<T>(x)));
        if (PyList_Append(m_ptr, o.ptr())) {
            throw error_already_set();
        }
    }
};
template <typename... A>
tuple make_tuple(A &&...a)
{
    object t = check(PyTuple_New(sizeof...(A)));
    ssize_t i = 0;
    (void)i;
    (PyTuple_SET_ITEM(t.ptr(), i++, check(detail::to_py(std::forward<A>(a))).release()), ...);
    return tuple(t);
}

// ---- arguments
struct arg_v {
    std::string name;
    object value;
};
struct arg {
    explicit arg(const char *n) : name(n) {}
    template <typename T>
    arg_v operator=(T &&x) const
    {
        return arg_v{name, check(detail::to_py(std::forward<T>(x)))};
    }
    std::string name;
};

namespace detail
{
// ---- registered classes
struct type_record {
    PyTypeObject *type = nullptr;
    const type_record *base = nullptr;
    void *(*upcast)(void *) = nullptr;
    void (*destroy)(void *) = nullptr;
};
struct instance {
    PyObject_HEAD;
    void *value;
    const type_record *rec;
    bool owned;
};
inline std::unordered_map<std::type_index, type_record *> &by_cpp()
{
    static std::unordered_map<std::type_index, type_record *> m;
    return m;
}
inline std::unordered_map<PyTypeObject *, type_record *> &by_py()
{
    static std::unordered_map<PyTypeObject *, type_record *> m;
    return m;
}
inline const type_record *record_of(PyTypeObject *t)
{
    for (; t; t = t->tp_base) {
        auto it = by_py().find(t);
        if (it != by_py().end()) {
            return it->second;
        }
    }
    return nullptr;
}
inline PyObject *instance_new(PyTypeObject *t, PyObject *, PyObject *)
{
    auto *i = reinterpret_cast<instance *>(t->tp_alloc(t, 0));
    if (i) {
        i->value = nullptr;
        i->rec = record_of(t);
        i->owned = true;
    }
    return reinterpret_cast<PyObject *>(i);
}
inline void instance_dealloc(PyObject *o)
{
    auto *i = reinterpret_cast<instance *>(o);
    if (i->value && i->owned) {
        i->rec->destroy(i->value);
    }
    PyTypeObject *t = Py_TYPE(o);
    t->tp_free(o);
    Py_DECREF(t);
}
inline int instance_no_init(PyObject *o, PyObject *, PyObject *)
{
    PyErr_Format(PyExc_TypeError, "%s: No constructor defined!", Py_TYPE(o)->tp_name);
    return -1;
}
inline void *class_ptr(PyObject *p, const std::type_index &ti)
{
    auto it = by_cpp().find(ti);
    if (it == by_cpp().end() || !PyObject_TypeCheck(p, it->second->type)) {
        return nullptr;
    }
    auto *i = reinterpret_cast<instance *>(p);
    void *v = i->value;
    for (const type_record *r = i->rec; v && r != it->second; r = r->base) {
        if (!r->base) {
            return nullptr;
        }
        v = r->upcast(v);
    }
    return v;
}
inline PyObject *new_instance(const std::type_index &ti, void *v, bool owned)
{
    auto it = by_cpp().find(ti);
    if (it == by_cpp().end()) {
        if (owned) {
            // leaks: the type is unknown
        }
        PyErr_Format(PyExc_TypeError, "Unregistered type : %s", ti.name());
        return nullptr;
    }
    auto *i = reinterpret_cast<instance *>(it->second->type->tp_alloc(it->second->type, 0));
    if (!i) {
        return nullptr;
    }
    i->value = v;
    i->rec = it->second;
    i->owned = owned;
    return reinterpret_cast<PyObject *>(i);
}

// ---- casters. load: Python -> C++; get<T>: the loaded value as the argument type T; cast: C++ -> Python
// classes
template <typename T, typename>
struct type_caster {
    T *ptr = nullptr;
    bool load(PyObject *p, bool)
    {
        if (std::is_pointer<T>::value || p == Py_None) {
            return false;
        }
        ptr = static_cast<T *>(class_ptr(p, typeid(T)));
        return ptr != nullptr;
    }
    template <typename U>
    static U get(type_caster &c)
    {
        return static_cast<U>(*c.ptr);
    }
    static PyObject *cast(const T &x)
    {
        return new_instance(typeid(T), new T(x), true);
    }
    static PyObject *cast(T &&x)
    {
        return new_instance(typeid(T), new T(std::move(x)), true);
    }
};
// pointers to classes (arguments only)
template <typename T>
struct type_caster<T *, std::enable_if_t<std::is_class<T>::value>> {
    T *ptr = nullptr;
    bool load(PyObject *p, bool)
    {
        if (p == Py_None) {
            return true;
        }
        ptr = static_cast<T *>(class_ptr(p, typeid(std::remove_cv_t<T>)));
        return ptr != nullptr;
    }
    template <typename U>
    static U get(type_caster &c)
    {
        return c.ptr;
    }
};
// Values held by the caster itself.
template <typename T>
struct value_caster {
    T value{};
    template <typename U, typename C>
    static U get(C &c)
    {
        if constexpr (std::is_lvalue_reference<U>::value) {
            return c.value;
        } else {
            return static_cast<U>(std::move(c.value));
        }
    }
};
template <>
struct type_caster<bool> : value_caster<bool> {
    bool load(PyObject *p, bool convert)
    {
        if (p == Py_True || p == Py_False) {
            value = p == Py_True;
            return true;
        }
        const bool np = !std::strcmp(Py_TYPE(p)->tp_name, "numpy.bool") || !std::strcmp(Py_TYPE(p)->tp_name, "numpy.bool_");
        if (convert || np) {
            int r = -1;
            if (p == Py_None) {
                r = 0;
            } else if (Py_TYPE(p)->tp_as_number && Py_TYPE(p)->tp_as_number->nb_bool) {
                r = Py_TYPE(p)->tp_as_number->nb_bool(p);
            }
            if (r == 0 || r == 1) {
                value = r != 0;
                return true;
            }
            PyErr_Clear();
        }
        return false;
    }
    static PyObject *cast(bool b)
    {
        return PyBool_FromLong(b);
    }
};
template <typename T>
struct type_caster<T, std::enable_if_t<std::is_integral<T>::value && !std::is_same<T, bool>::value && !std::is_same<T, char>::value>>
    : value_caster<T> {
    bool load(PyObject *p, bool convert)
    {
        if (PyFloat_Check(p)) {
            return false;
        }
        if (!convert && !PyLong_Check(p) && !PyIndex_Check(p)) {
            return false;
        }
        object idx;
        if (!PyLong_Check(p)) {
            idx = object(PyNumber_Index(p), stolen_t{});
            if (!idx) {
                PyErr_Clear();
                if (!convert) {
                    return false;
                }
                idx = object(PyNumber_Check(p) ? PyNumber_Long(p) : nullptr, stolen_t{});
                PyErr_Clear();
                if (!idx) {
                    return false;
                }
            }
            p = idx.ptr();
        }
        if (std::is_unsigned<T>::value) {
            const unsigned long long v = PyLong_AsUnsignedLongLong(p);
            if (PyErr_Occurred()) {
                PyErr_Clear();
                return false;
            }
            this->value = static_cast<T>(v);
            return static_cast<unsigned long long>(this->value) == v;
        }
        const long long v = PyLong_AsLongLong(p);
        if (PyErr_Occurred()) {
            PyErr_Clear();
            return false;
        }
        this->value = static_cast<T>(v);
        return static_cast<long long>(this->value) == v;
    }
    static PyObject *cast(T x)
    {
        return std::is_unsigned<T>::value ? PyLong_FromUnsignedLongLong(static_cast<unsigned long long>(x))
                                          : PyLong_FromLongLong(static_cast<long long>(x));
    }
};
template <typename T>
struct type_caster<T, std::enable_if_t<std::is_floating_point<T>::value>> : value_caster<T> {
    bool load(PyObject *p, bool convert)
    {
        if (!convert && !PyFloat_Check(p)) {
            return false;
        }
        double v = PyFloat_AsDouble(p);
        if (v == -1. && PyErr_Occurred()) {
            PyErr_Clear();
            if (!convert || !PyNumber_Check(p)) {
                return false;
            }
            object f(PyNumber_Float(p), stolen_t{});
            PyErr_Clear();
            return f && load(f.ptr(), false);
        }
        this->value = static_cast<T>(v);
        return true;
    }
    static PyObject *cast(T x)
    {
        return PyFloat_FromDouble(x);
    }
};
template <>
struct type_caster<std::string> : value_caster<std::string> {
    bool load(PyObject *p, bool)
    {
        if (PyUnicode_Check(p)) {
            ssize_t n = 0;
            const char *s = PyUnicode_AsUTF8AndSize(p, &n);
            if (!s) {
                PyErr_Clear();
                return false;
            }
            value.assign(s, static_cast<size_t>(n));
            return true;
        }
        if (PyBytes_Check(p)) {
            value.assign(PyBytes_AS_STRING(p), static_cast<size_t>(PyBytes_GET_SIZE(p)));
            return true;
        }
        return false;
    }
    static PyObject *cast(const std::string &s)
    {
        return PyUnicode_DecodeUTF8(s.data(), static_cast<ssize_t>(s.size()), nullptr);
    }
};
// Python objects
template <typename T>
struct type_caster<T, std::enable_if_t<std::is_same<T, object>::value || std::is_same<T, tuple>::value || std::is_same<T, list>::value
                                       || std::is_same<T, bytes>::value>> {
    object value;
    bool load(PyObject *p, bool)
    {
        if constexpr (!std::is_same<T, object>::value) {
            if (!T::is(p)) {
                return false;
            }
        }
        value = object(p, borrowed_t{});
        return true;
    }
    template <typename U>
    static U get(type_caster &c)
    {
        if constexpr (std::is_same<T, object>::value) {
            if constexpr (std::is_lvalue_reference<U>::value) {
                return c.value;
            } else {
                return static_cast<U>(c.value);
            }
        } else {
            static_assert(!std::is_lvalue_reference<U>::value, "by value only");
            return T(c.value);
        }
    }
    static PyObject *cast(const object &o)
    {
        Py_XINCREF(o.ptr());
        return o.ptr();
    }
};
template <typename T>
PyObject *to_py(T &&x)
{
    try {
        if constexpr (std::is_convertible<T, const char *>::value) {
            return PyUnicode_FromString(x);
        } else {
            return caster<T>::cast(std::forward<T>(x));
        }
    } catch (const error_already_set &e) {
        e.restore();
        return nullptr;
    }
}
// ---- functions
struct parameter {
    std::string name;
    object value;
};
inline PyObject *next_overload()
{
    return reinterpret_cast<PyObject *>(1);
}
struct overload {
    std::function<PyObject *(PyObject *const *, bool)> impl;
    size_t nargs = 0;
    bool method = false;
    std::vector<parameter> names; // excluding self
};
struct chain {
    std::string name, doc;
    std::vector<overload> overloads;
    PyMethodDef def{};
};
inline void translate()
{
    try {
        throw;
    } catch (const error_already_set &e) {
        e.restore();
    } catch (const index_error &e) {
        PyErr_SetString(PyExc_IndexError, e.what());
    } catch (const value_error &e) {
        PyErr_SetString(PyExc_ValueError, e.what());
    } catch (const type_error &e) {
        PyErr_SetString(PyExc_TypeError, e.what());
    } catch (const std::bad_alloc &e) {
        PyErr_SetString(PyExc_MemoryError, e.what());
    } catch (const std::domain_error &e) {
        PyErr_SetString(PyExc_ValueError, e.what());
    } catch (const std::invalid_argument &e) {
        PyErr_SetString(PyExc_ValueError, e.what());
    } catch (const std::length_error &e) {
        PyErr_SetString(PyExc_ValueError, e.what());
    } catch (const std::out_of_range &e) {
        PyErr_SetString(PyExc_IndexError, e.what());
    } catch (const std::range_error &e) {
        PyErr_SetString(PyExc_ValueError, e.what());
    } catch (const std::overflow_error &e) {
        PyErr_SetString(PyExc_OverflowError, e.what());
    } catch (const std::exception &e) {
        PyErr_SetString(PyExc_RuntimeError, e.what());
    } catch (...) {
        PyErr_SetString(PyExc_RuntimeError, "Caught an unknown exception!");
    }
}
inline PyObject *dispatch(PyObject *self, PyObject *args, PyObject *kwargs)
{
    auto *ch = static_cast<chain *>(PyCapsule_GetPointer(self, "verif.chain"));
    const size_t n_in = static_cast<size_t>(PyTuple_GET_SIZE(args));
    const bool overloaded = ch->overloads.size() > 1;
    for (int pass = overloaded ? 0 : 1; pass < 2; ++pass) {
        for (auto &o : ch->overloads) {
            if (n_in > o.nargs) {
                continue;
            }
            std::vector<PyObject *> a(o.nargs, nullptr);
            for (size_t i = 0; i < n_in; ++i) {
                a[i] = PyTuple_GET_ITEM(args, static_cast<ssize_t>(i));
            }
            const size_t off = o.method ? 1 : 0;
            ssize_t used = 0;
            bool ok = true;
            for (size_t i = n_in; i < o.nargs && ok; ++i) {
                if (o.names.empty() || i < off) {
                    ok = false;
                    break;
                }
                const auto &q = o.names[i - off];
                PyObject *v = kwargs ? PyDict_GetItemString(kwargs, q.name.c_str()) : nullptr;
                if (v) {
                    ++used;
                } else {
                    v = q.value.ptr();
                }
                a[i] = v;
                ok = v != nullptr;
            }
            if (!ok || (kwargs && used != PyDict_Size(kwargs))) {
                continue;
            }
            PyObject *r;
            try {
                r = o.impl(a.data(), pass == 1);
            } catch (const reference_cast_error &) {
                r = next_overload();
            } catch (...) {
                translate();
                return nullptr;
            }
            if (r != next_overload()) {
                return r;
            }
        }
    }
    PyErr_Format(PyExc_TypeError, "%s(): incompatible function arguments", ch->name.c_str());
    return nullptr;
}

template <typename T>
struct value_and_holder;
struct self_slot { // the first argument of constructors
    instance *inst;
};
template <>
struct type_caster<self_slot> : value_caster<self_slot> {
    bool load(PyObject *p, bool)
    {
        if (!record_of(Py_TYPE(p))) {
            return false;
        }
        value.inst = reinterpret_cast<instance *>(p);
        return true;
    }
};

template <typename R, typename... A, typename F, size_t... I>
std::function<PyObject *(PyObject *const *, bool)> make_impl(F f, std::index_sequence<I...>)
{
    return [f](PyObject *const *a, bool convert) mutable -> PyObject * {
        std::tuple<caster<A>...> cs;
        bool ok = true;
        (void)a;
        (void)convert;
        ((ok = ok && std::get<I>(cs).load(a[I], convert)), ...);
        if (!ok) {
            PyErr_Clear();
            return next_overload();
        }
        if constexpr (std::is_void<R>::value) {
            f(caster<A>::template get<A>(std::get<I>(cs))...);
            Py_RETURN_NONE;
        } else {
            return to_py(static_cast<R>(f(caster<A>::template get<A>(std::get<I>(cs))...)));
        }
    };
}
inline void extra(chain &c, overload &, const char *doc)
{
    c.doc = doc;
}
inline void extra(chain &, overload &o, const arg &a)
{
    o.names.push_back({a.name, object()});
}
inline void extra(chain &, overload &o, const arg_v &a)
{
    o.names.push_back({a.name, a.value});
}
template <typename R, typename... A, typename F, typename... E>
void add_overload(PyObject *scope, bool is_class, const char *name, F f, const E &...e)
{
    // look for an existing chain of this very scope
    chain *ch = nullptr;
    PyObject *d = is_class ? reinterpret_cast<PyTypeObject *>(scope)->tp_dict : PyModule_GetDict(scope);
    PyObject *old = PyDict_GetItemString(d, name);
    if (old) {
        PyObject *fn = PyInstanceMethod_Check(old) ? PyInstanceMethod_GET_FUNCTION(old) : old;
        if (PyCFunction_Check(fn) && PyCFunction_GET_SELF(fn) && PyCapsule_CheckExact(PyCFunction_GET_SELF(fn))) {
            ch = static_cast<chain *>(PyCapsule_GetPointer(PyCFunction_GET_SELF(fn), "verif.chain"));
        }
    }
    const bool fresh = !ch;
    if (fresh) {
        ch = new chain;
        ch->name = name;
    }
    overload o;
    o.nargs = sizeof...(A);
    o.method = is_class;
    o.impl = make_impl<R, A...>(std::move(f), std::index_sequence_for<A...>{});
    (extra(*ch, o, e), ...);
    if (!o.names.empty() && o.names.size() + (is_class ? 1 : 0) != o.nargs) {
        throw std::runtime_error(std::string("wrong number of argument names for ") + name);
    }
    ch->overloads.push_back(std::move(o));
    if (fresh) {
        ch->def.ml_name = ch->name.c_str();
        ch->def.ml_meth = reinterpret_cast<PyCFunction>(reinterpret_cast<void (*)(void)>(&dispatch));
        ch->def.ml_flags = METH_VARARGS | METH_KEYWORDS;
        object cap = check(PyCapsule_New(ch, "verif.chain", nullptr));
        object fn = check(PyCFunction_New(&ch->def, cap.ptr()));
        if (is_class) {
            fn = check(PyInstanceMethod_New(fn.ptr()));
        }
        if (PyObject_SetAttrString(scope, name, fn.ptr())) {
            throw error_already_set();
        }
    }
}
// signatures of callables
template <typename T>
struct strip;
template <typename C, typename R, typename... A>
struct strip<R (C::*)(A...)> {
    template <typename F, typename... E>
    static void add(PyObject *s, bool k, const char *n, F f, const E &...e)
    {
        add_overload<R, A...>(s, k, n, std::move(f), e...);
    }
};
template <typename C, typename R, typename... A>
struct strip<R (C::*)(A...) const> : strip<R (C::*)(A...)> {
};
template <typename F, typename... E>
void define(PyObject *s, bool k, const char *n, F f, const E &...e)
{
    strip<decltype(&F::operator())>::add(s, k, n, std::move(f), e...);
}
template <typename R, typename... A, typename... E>
void define(PyObject *s, bool k, const char *n, R (*f)(A...), const E &...e)
{
    add_overload<R, A...>(s, k, n, f, e...);
}
template <typename R, typename C, typename... A, typename... E>
void define(PyObject *s, bool k, const char *n, R (C::*f)(A...), const E &...e)
{
    add_overload<R, C &, A...>(
        s, k, n, [f](C &c, A... a) -> R { return (c.*f)(std::forward<A>(a)...); }, e...);
}
template <typename R, typename C, typename... A, typename... E>
void define(PyObject *s, bool k, const char *n, R (C::*f)(A...) const, const E &...e)
{
    add_overload<R, const C &, A...>(
        s, k, n, [f](const C &c, A... a) -> R { return (c.*f)(std::forward<A>(a)...); }, e...);
}
} // namespace detail

class module : public object
{
public:
    module() = default;
    explicit module(object o) : object(std::move(o)) {}
    static module import(const char *n)
    {
        return module(check(PyImport_ImportModule(n)));
    }
    template <typename F, typename... E>
    module &def(const char *n, F f, const E &...e)
    {
        detail::define(m_ptr, false, n, f, e...);
        return *this;
    }
};
using module_ = module;
struct options {
    options &disable_function_signatures()
    {
        return *this;
    }
};

namespace detail
{
template <typename... A>
struct init_ctor {
};
template <typename F>
struct init_factory {
    F f;
};
template <typename G, typename S>
struct pickle_pair {
    G get;
    S set;
};
template <typename T, typename F, typename C, typename R, typename... A, typename... E>
void define_factory(PyObject *type, F f, R (C::*)(A...) const, const E &...e)
{
    add_overload<void, self_slot, A...>(
        type, true, "__init__",
        [f](self_slot s, A... a) {
            R r = f(std::forward<A>(a)...);
            if constexpr (std::is_pointer<R>::value) {
                s.inst->value = r;
            } else {
                s.inst->value = new T(std::move(r));
            }
        },
        e...);
}
} // namespace detail
template <typename... A>
detail::init_ctor<A...> init()
{
    return {};
}
template <typename F>
detail::init_factory<F> init(F f)
{
    return {std::move(f)};
}
template <typename G, typename S>
detail::pickle_pair<G, S> pickle(G g, S s)
{
    return {g, s};
}

template <typename T, typename... Bases>
class class_ : public object
{
public:
    template <typename... D>
    class_(const handle &scope, const char *name, const D &...)
    {
        static_assert(sizeof...(Bases) <= 1, "one base at most");
        auto *rec = new detail::type_record;
        rec->destroy = [](void *p) { delete static_cast<T *>(p); };
        object bases;
        if constexpr (sizeof...(Bases) == 1) {
            using B = std::tuple_element_t<0, std::tuple<Bases...>>;
            rec->base = detail::by_cpp().at(typeid(B));
            rec->upcast = [](void *p) -> void * { return static_cast<B *>(static_cast<T *>(p)); };
            bases = check(PyTuple_Pack(1, rec->base->type));
        }
        PyType_Slot slots[] = {{Py_tp_new, reinterpret_cast<void *>(&detail::instance_new)},
                               {Py_tp_dealloc, reinterpret_cast<void *>(&detail::instance_dealloc)},
                               {Py_tp_init, reinterpret_cast<void *>(&detail::instance_no_init)},
                               {0, nullptr}};
        const std::string mod = PyModule_GetName(scope.ptr());
        auto *full = new std::string(mod + "." + name);
        PyType_Spec spec = {full->c_str(), sizeof(detail::instance), 0, Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE, slots};
        object t = check(PyType_FromSpecWithBases(&spec, bases.ptr()));
        rec->type = reinterpret_cast<PyTypeObject *>(t.ptr());
        detail::by_cpp()[typeid(T)] = rec;
        detail::by_py()[rec->type] = rec;
        if (PyObject_SetAttrString(scope.ptr(), name, t.ptr())) {
            throw error_already_set();
        }
        Py_INCREF(t.ptr());
        static_cast<object &>(*this) = t;
    }
    template <typename F, typename... E>
    class_ &def(const char *n, F f, const E &...e)
    {
        detail::define(m_ptr, true, n, f, e...);
        return *this;
    }
    template <typename... A, typename... E>
    class_ &def(detail::init_ctor<A...>, const E &...e)
    {
        detail::add_overload<void, detail::self_slot, A...>(
            m_ptr, true, "__init__", [](detail::self_slot s, A... a) { s.inst->value = new T(std::forward<A>(a)...); }, e...);
        return *this;
    }
    template <typename F, typename... E>
    class_ &def(detail::init_factory<F> f, const E &...e)
    {
        detail::define_factory<T>(m_ptr, f.f, &F::operator(), e...);
        return *this;
    }
    template <typename G, typename S>
    class_ &def(detail::pickle_pair<G, S> p)
    {
        detail::define(m_ptr, true, "__getstate__", p.get);
        if constexpr (std::is_pointer<S>::value) {
            set_state(p.set, p.set);
        } else {
            set_state(p.set, &S::operator());
        }
        return *this;
    }
    template <typename S, typename R, typename A>
    void set_state(S set, R (*)(A))
    {
        detail::add_overload<void, detail::self_slot, A>(m_ptr, true, "__setstate__", [set](detail::self_slot s, A a) { put_state(s, set(std::forward<A>(a))); });
    }
    template <typename S, typename R, typename C, typename A>
    void set_state(S set, R (C::*)(A) const)
    {
        detail::add_overload<void, detail::self_slot, A>(m_ptr, true, "__setstate__", [set](detail::self_slot s, A a) { put_state(s, set(std::forward<A>(a))); });
    }
    template <typename R>
    static void put_state(detail::self_slot s, R r)
    {
        if constexpr (std::is_same<R, T>::value) {
            s.inst->value = new T(std::move(r));
        } else if constexpr (std::is_pointer<R>::value) {
            s.inst->value = r;
        } else { // a smart pointer
            s.inst->value = new T(std::move(*r));
        }
    }
    template <typename G, typename S>
    class_ &def_property(const char *n, G g, S s)
    {
        object get = function_of(g, "fget"), set = function_of(s, "fset");
        object p = check(PyObject_CallFunctionObjArgs(reinterpret_cast<PyObject *>(&PyProperty_Type), get.ptr(), set.ptr(), nullptr));
        if (PyObject_SetAttrString(m_ptr, n, p.ptr())) {
            throw error_already_set();
        }
        return *this;
    }
    template <typename G>
    class_ &def_property_readonly(const char *n, G g)
    {
        object get = function_of(g, "fget");
        object p = check(PyObject_CallFunctionObjArgs(reinterpret_cast<PyObject *>(&PyProperty_Type), get.ptr(), nullptr));
        if (PyObject_SetAttrString(m_ptr, n, p.ptr())) {
            throw error_already_set();
        }
        return *this;
    }

private:
    template <typename F>
    object function_of(F f, const char *n)
    {
        // defined under a temporary name, then taken out of the class again
        detail::define(m_ptr, true, n, f);
        object m = object(PyDict_GetItemString(reinterpret_cast<PyTypeObject *>(m_ptr)->tp_dict, n), borrowed_t{});
        object fn(PyInstanceMethod_GET_FUNCTION(m.ptr()), borrowed_t{});
        PyObject_DelAttrString(m_ptr, n);
        return fn;
    }
};
} // namespace pybind11

#define PYBIND11_MODULE(NAME, VAR)                                                                                     \
    static void verif_init_##NAME(::pybind11::module &);                                                               \
    extern "C" __attribute__((visibility("default"))) PyObject *PyInit_##NAME()                                        \
    {                                                                                                                  \
        static PyModuleDef d = {PyModuleDef_HEAD_INIT, #NAME, nullptr, -1, nullptr, nullptr, nullptr, nullptr, nullptr}; \
        PyObject *p = PyModule_Create(&d);                                                                             \
        if (!p) {                                                                                                      \
            return nullptr;                                                                                            \
        }                                                                                                              \
        Py_INCREF(p);                                                                                                  \
        ::pybind11::module m(::pybind11::object(p, ::pybind11::stolen_t{}));                                           \
        try {                                                                                                          \
            verif_init_##NAME(m);                                                                                      \
            return p;                                                                                                  \
        } catch (...) {                                                                                                \
            ::pybind11::detail::translate();                                                                           \
            return nullptr;                                                                                            \
        }                                                                                                              \
    }                                                                                                                  \
    void verif_init_##NAME(::pybind11::module &VAR)
#endif
