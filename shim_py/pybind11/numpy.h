#ifndef VERIF_PYBIND11_NUMPY_H
#define VERIF_PYBIND11_NUMPY_H
#include <pybind11/pybind11.h>
// numpy through its buffer protocol: arrays are C-contiguous copies of the asked type
#include <pybind11/stl.h>
namespace pybind11
{
namespace detail
{
template <typename T>
const char *dtype_name()
{
    static_assert(std::is_same<T, double>::value || (std::is_unsigned<T>::value && sizeof(T) == 8), "type");
    return std::is_same<T, double>::value ? "float64" : "uint64";
}
} // namespace detail
template <typename T>
class array_t : public object
{
public:
    explicit array_t(object o) : object(std::move(o)) {}
    template <typename N, std::enable_if_t<std::is_integral<N>::value, int> = 0>
    explicit array_t(N n) : array_t(std::vector<ssize_t>{static_cast<ssize_t>(n)})
    {
    }
    array_t(std::initializer_list<ssize_t> s) : array_t(std::vector<ssize_t>(s)) {}
    array_t(std::vector<ssize_t> shape)
    {
        object t = check(detail::to_py(shape));
        static_cast<object &>(*this) = module::import("numpy").attr("zeros")(t, detail::dtype_name<T>());
    }
    template <int N>
    struct view {
        std::shared_ptr<Py_buffer> b;
        ssize_t shape(int i) const
        {
            return b->shape[i];
        }
        ssize_t ndim() const
        {
            return b->ndim;
        }
        ssize_t size() const
        {
            return b->len / b->itemsize;
        }
        template <typename... I>
        const T *data(I... i) const
        {
            return &(*this)(i...);
        }
        template <typename... I>
        T *mutable_data(I... i) const
        {
            return &(*this)(i...);
        }
        template <typename... I>
        T &operator()(I... i) const
        {
            static_assert(sizeof...(I) == N, "index");
            char *p = static_cast<char *>(b->buf);
            int k = 0;
            ((p += static_cast<ssize_t>(i) * b->strides[k++]), ...);
            return *reinterpret_cast<T *>(p);
        }
    };
    template <int N>
    view<N> unchecked() const
    {
        return get<N>(PyBUF_STRIDES);
    }
    template <int N>
    view<N> mutable_unchecked()
    {
        return get<N>(PyBUF_STRIDES | PyBUF_WRITABLE);
    }

    ssize_t ndim() const
    {
        return buffer()->ndim;
    }
    ssize_t shape(ssize_t i) const
    {
        auto b = buffer();
        if (i >= b->ndim) {
            throw std::domain_error("invalid axis");
        }
        return b->shape[i];
    }
    ssize_t strides(ssize_t i) const
    {
        return buffer()->strides[i];
    }
    ssize_t size() const
    {
        auto b = buffer();
        return b->len / b->itemsize;
    }
    ssize_t itemsize() const
    {
        return sizeof(T);
    }
    ssize_t nbytes() const
    {
        return size() * itemsize();
    }
    template <typename... I>
    const T *data(I... i) const
    {
        return mutable_data(i...);
    }
    template <typename... I>
    T *mutable_data(I... i) const
    {
        auto b = buffer();
        char *p = static_cast<char *>(b->buf);
        int k = 0;
        ((p += static_cast<ssize_t>(i) * b->strides[k++]), ...);
        (void)k;
        return reinterpret_cast<T *>(p);
    }
    template <typename... I>
    const T &at(I... i) const
    {
        auto b = buffer();
        int k = 0;
        if (sizeof...(I) != static_cast<unsigned>(b->ndim) || ((static_cast<ssize_t>(i) >= b->shape[k++]) || ...)) {
            throw index_error("index out of bounds");
        }
        return *data(i...);
    }
    template <typename... I>
    T &mutable_at(I... i)
    {
        return const_cast<T &>(at(i...));
    }

private:
    std::shared_ptr<Py_buffer> buffer(int flags = PyBUF_STRIDES) const
    {
        std::shared_ptr<Py_buffer> b(new Py_buffer, [](Py_buffer *x) {
            PyBuffer_Release(x);
            delete x;
        });
        b->obj = nullptr;
        if (PyObject_GetBuffer(m_ptr, b.get(), flags)) {
            throw error_already_set();
        }
        return b;
    }
    template <int N>
    view<N> get(int flags) const
    {
        auto b = buffer(flags);
        if (b->ndim != N) {
            throw std::domain_error("array has incorrect number of dimensions: " + std::to_string(b->ndim) + "; expected " + std::to_string(N));
        }
        return {b};
    }
};
namespace detail
{
template <typename T>
struct type_caster<array_t<T>> {
    object value;
    bool load(PyObject *p, bool convert)
    {
        static object np = module::import("numpy"), nda = np.attr("ndarray"), dt = np.attr("dtype")(dtype_name<T>());
        const bool is = PyObject_IsInstance(p, nda.ptr()) == 1;
        const bool same = is && PyObject_RichCompareBool(object(p, borrowed_t{}).attr("dtype").ptr(), dt.ptr(), Py_EQ) == 1;
        if (same) {
            value = object(p, borrowed_t{});
            return true;
        }
        if (!convert) {
            return false;
        }
        object r(PyObject_CallMethod(np.ptr(), "array", "OO", p, dt.ptr()), stolen_t{});
        if (!r) {
            PyErr_Clear();
            return false;
        }
        value = r;
        return true;
    }
    template <typename U>
    static U get(type_caster &c)
    {
        static_assert(sizeof(array_t<T>) == sizeof(object), "layout");
        if constexpr (std::is_lvalue_reference<U>::value) {
            return static_cast<U>(reinterpret_cast<array_t<T> &>(c.value));
        } else {
            return array_t<T>(c.value);
        }
    }
    static PyObject *cast(const object &o)
    {
        Py_XINCREF(o.ptr());
        return o.ptr();
    }
};
} // namespace detail
} // namespace pybind11
#endif
