#ifndef VERIF_PYBIND11_FUNCTIONAL_H
#define VERIF_PYBIND11_FUNCTIONAL_H
#include <pybind11/pybind11.h>
namespace pybind11
{
namespace detail
{
template <typename R, typename... A>
struct type_caster<std::function<R(A...)>> : value_caster<std::function<R(A...)>> {
    bool load(PyObject *p, bool convert)
    {
        if (p == Py_None) {
            return convert;
        }
        if (!PyCallable_Check(p)) {
            return false;
        }
        object f(p, borrowed_t{});
        this->value = [f](A... a) -> R {
            object r = f(std::forward<A>(a)...);
            if constexpr (!std::is_void<R>::value) {
                return pybind11::cast<R>(r);
            }
        };
        return true;
    }
    static PyObject *cast(const std::function<R(A...)> &f)
    {
        if (!f) {
            Py_RETURN_NONE;
        }
        auto *ch = new chain;
        ch->name = "function";
        overload o;
        o.nargs = sizeof...(A);
        o.impl = make_impl<R, A...>(f, std::index_sequence_for<A...>{});
        ch->overloads.push_back(std::move(o));
        ch->def.ml_name = ch->name.c_str();
        ch->def.ml_meth = reinterpret_cast<PyCFunction>(reinterpret_cast<void (*)(void)>(&dispatch));
        ch->def.ml_flags = METH_VARARGS | METH_KEYWORDS;
        object cap = check(PyCapsule_New(ch, "verif.chain", [](PyObject *c) {
            delete static_cast<chain *>(PyCapsule_GetPointer(c, "verif.chain"));
        }));
        return PyCFunction_New(&ch->def, cap.ptr());
    }
};
} // namespace detail
} // namespace pybind11
#endif
