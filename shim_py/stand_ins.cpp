// Stand-ins for the modules dcgpy works with: pyaudi (generalized dual numbers, from shim/audi) and pygmo (pagmo itself,
// with problems and algorithms held as Python objects the way pygmo does). Linked into the module under test, so that they
// share its registry of classes.
#include <pybind11/functional.h>
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>

#include <audi/audi.hpp>
#include <pagmo/algorithm.hpp>
#include <pagmo/bfe.hpp>
#include <pagmo/population.hpp>
#include <pagmo/problem.hpp>
#include <sstream>

#include "dcgpy/common_utils.hpp"

namespace py = pybind11;
using pagmo::sparsity_pattern;
using pagmo::vector_double;

// ---- pygmo
namespace pagmo
{
namespace detail
{
template <>
struct disable_udp_checks<py::object> : std::true_type {
};
template <>
struct disable_uda_checks<py::object> : std::true_type {
};
inline bool has(const py::object &o, const char *n)
{
    return PyObject_HasAttrString(o.ptr(), n);
}
template <>
struct prob_inner<py::object> final : prob_inner_base {
    prob_inner() = default;
    explicit prob_inner(const py::object &o) : m_value(dcgpy::deepcopy(o)) {}
    std::unique_ptr<prob_inner_base> clone() const final
    {
        return std::make_unique<prob_inner>(m_value);
    }
    vector_double fitness(const vector_double &x) const final
    {
        return py::cast<vector_double>(m_value.attr("fitness")(x));
    }
    vector_double batch_fitness(const vector_double &) const final
    {
        throw std::logic_error("no batch fitness");
    }
    bool has_batch_fitness() const final
    {
        return false;
    }
    vector_double gradient(const vector_double &x) const final
    {
        return py::cast<vector_double>(m_value.attr("gradient")(x));
    }
    bool has_gradient() const final
    {
        return has(m_value, "gradient");
    }
    static sparsity_pattern sp(const py::object &a)
    {
        sparsity_pattern r;
        for (const auto &v : py::cast<std::vector<std::vector<unsigned>>>(a)) {
            r.emplace_back(v.at(0), v.at(1));
        }
        return r;
    }
    sparsity_pattern gradient_sparsity() const final
    {
        return sp(m_value.attr("gradient_sparsity")());
    }
    bool has_gradient_sparsity() const final
    {
        return has(m_value, "gradient_sparsity");
    }
    std::vector<vector_double> hessians(const vector_double &x) const final
    {
        return py::cast<std::vector<vector_double>>(m_value.attr("hessians")(x));
    }
    bool has_hessians() const final
    {
        return has(m_value, "hessians");
    }
    std::vector<sparsity_pattern> hessians_sparsity() const final
    {
        std::vector<sparsity_pattern> r;
        py::object l = m_value.attr("hessians_sparsity")();
        for (std::size_t i = 0; i < py::len(l); ++i) {
            r.push_back(sp(l[static_cast<py::ssize_t>(i)]));
        }
        return r;
    }
    bool has_hessians_sparsity() const final
    {
        return has(m_value, "hessians_sparsity");
    }
    vector_double::size_type number(const char *n, vector_double::size_type d) const
    {
        return has(m_value, n) ? py::cast<vector_double::size_type>(m_value.attr(n)()) : d;
    }
    vector_double::size_type get_nobj() const final
    {
        return number("get_nobj", 1);
    }
    std::pair<vector_double, vector_double> get_bounds() const final
    {
        return py::cast<std::pair<vector_double, vector_double>>(m_value.attr("get_bounds")());
    }
    vector_double::size_type get_nec() const final
    {
        return number("get_nec", 0);
    }
    vector_double::size_type get_nic() const final
    {
        return number("get_nic", 0);
    }
    vector_double::size_type get_nix() const final
    {
        return number("get_nix", 0);
    }
    void set_seed(unsigned s) final
    {
        m_value.attr("set_seed")(s);
    }
    bool has_set_seed() const final
    {
        return has(m_value, "set_seed");
    }
    std::string get_name() const final
    {
        return has(m_value, "get_name") ? py::cast<std::string>(m_value.attr("get_name")()) : "";
    }
    std::string get_extra_info() const final
    {
        return has(m_value, "get_extra_info") ? py::cast<std::string>(m_value.attr("get_extra_info")()) : "";
    }
    pagmo::thread_safety get_thread_safety() const final
    {
        return pagmo::thread_safety::none;
    }
    std::type_index get_type_index() const final
    {
        return typeid(py::object);
    }
    const void *get_ptr() const final
    {
        return &m_value;
    }
    void *get_ptr() final
    {
        return &m_value;
    }
    py::object m_value;
};
template <>
struct algo_inner<py::object> final : algo_inner_base {
    algo_inner() = default;
    explicit algo_inner(const py::object &o) : m_value(dcgpy::deepcopy(o)) {}
    std::unique_ptr<algo_inner_base> clone() const final
    {
        return std::make_unique<algo_inner>(m_value);
    }
    population evolve(const population &p) const final
    {
        return py::cast<population>(m_value.attr("evolve")(p));
    }
    void set_seed(unsigned s) final
    {
        m_value.attr("set_seed")(s);
    }
    bool has_set_seed() const final
    {
        return has(m_value, "set_seed");
    }
    void set_verbosity(unsigned s) final
    {
        m_value.attr("set_verbosity")(s);
    }
    bool has_set_verbosity() const final
    {
        return has(m_value, "set_verbosity");
    }
    std::string get_name() const final
    {
        return has(m_value, "get_name") ? py::cast<std::string>(m_value.attr("get_name")()) : "";
    }
    std::string get_extra_info() const final
    {
        return has(m_value, "get_extra_info") ? py::cast<std::string>(m_value.attr("get_extra_info")()) : "";
    }
    pagmo::thread_safety get_thread_safety() const final
    {
        return pagmo::thread_safety::none;
    }
    std::type_index get_type_index() const final
    {
        return typeid(py::object);
    }
    const void *get_ptr() const final
    {
        return &m_value;
    }
    void *get_ptr() final
    {
        return &m_value;
    }
    py::object m_value;
};
} // namespace detail
} // namespace pagmo

namespace
{
// a batch evaluator in Python-free C++ (as pygmo's mp_bfe, but serial)
struct serial_bfe {
    vector_double operator()(const pagmo::problem &p, const vector_double &dvs) const
    {
        vector_double r;
        const auto n = p.get_nx();
        for (vector_double::size_type i = 0; i + n <= dvs.size(); i += n) {
            const auto f = p.fitness(vector_double(dvs.begin() + static_cast<long>(i), dvs.begin() + static_cast<long>(i + n)));
            r.insert(r.end(), f.begin(), f.end());
        }
        return r;
    }
    template <typename Ar>
    void serialize(Ar &, unsigned)
    {
    }
};
py::object held(const py::object *o)
{
    if (!o) {
        Py_INCREF(Py_None);
        return py::object(Py_None, py::stolen_t{});
    }
    return *o;
}
template <typename G>
void expose_gdual(py::module &m, const char *name)
{
    using C = typename G::cf_type;
    using V = std::conditional_t<std::is_same<C, double>::value, double, std::vector<double>>;
    py::class_<G> c(m, name, "");
    const auto cf = [](const V &v) { return C(v); };
    const auto back = [](const C &x) {
        if constexpr (std::is_same<C, double>::value) {
            return x;
        } else {
            return std::vector<double>(x.begin(), x.end());
        }
    };
    c.def(py::init([cf](const V &v) { return G(cf(v)); }));
    if constexpr (!std::is_same<C, double>::value) {
        c.def(py::init([](double v) { return G(C(v)); }));
    }
    c.def(py::init([cf](const V &v, const std::string &s, unsigned o) { return G(cf(v), s, o); }))
        .def("__add__", [](const G &a, const G &b) { return a + b; })
        .def("__sub__", [](const G &a, const G &b) { return a - b; })
        .def("__mul__", [](const G &a, const G &b) { return a * b; })
        .def("__truediv__", [](const G &a, const G &b) { return a / b; })
        .def("__add__", [](const G &a, double b) { return a + b; })
        .def("__sub__", [](const G &a, double b) { return a - b; })
        .def("__mul__", [](const G &a, double b) { return a * b; })
        .def("__truediv__", [](const G &a, double b) { return a / b; })
        .def("__radd__", [](const G &a, double b) { return b + a; })
        .def("__rsub__", [](const G &a, double b) { return b - a; })
        .def("__rmul__", [](const G &a, double b) { return b * a; })
        .def("__rtruediv__", [](const G &a, double b) { return b / a; })
        .def("__neg__", [](const G &a) { return -a; })
        .def("__eq__", [](const G &a, const G &b) { return a == b; })
        .def("__repr__",
             [](const G &a) {
                 std::ostringstream o;
                 o << a;
                 return o.str();
             })
        .def("get_derivative", [back](const G &a, const std::vector<unsigned> &e) { return back(a.get_derivative(e)); })
        .def("get_order", [](const G &a) { return a.get_order(); })
        .def_property_readonly("symbol_set", [](const G &a) { return a.get_symbol_set(); })
        .def_property_readonly("constant_cf", [back](const G &a) { return back(a.constant_cf()); });
}
} // namespace
PAGMO_S11N_BFE_EXPORT(serial_bfe)

PYBIND11_MODULE(_pyaudi, m)
{
    expose_gdual<audi::gdual_d>(m, "gdual_double");
    expose_gdual<audi::gdual_v>(m, "gdual_vdouble");
}

PYBIND11_MODULE(_pygmo, m)
{
    using pagmo::algorithm;
    using pagmo::population;
    using pagmo::problem;
    py::class_<problem>(m, "problem", "")
        .def(py::init([](const py::object &o) { return problem(o); }))
        .def("fitness", [](const problem &p, const vector_double &x) { return p.fitness(x); })
        .def("gradient", [](const problem &p, const vector_double &x) { return p.gradient(x); })
        .def("hessians", [](const problem &p, const vector_double &x) { return p.hessians(x); })
        .def("get_bounds", [](const problem &p) { return p.get_bounds(); })
        .def("get_nobj", &problem::get_nobj)
        .def("get_nx", &problem::get_nx)
        .def("get_nix", &problem::get_nix)
        .def("get_nc", &problem::get_nc)
        .def("get_nic", &problem::get_nic)
        .def("get_fevals", [](const problem &p) { return p.get_fevals(); })
        .def("has_gradient", &problem::has_gradient)
        .def("has_hessians", &problem::has_hessians)
        .def("extract", [](const problem &p, const py::object &) { return held(p.extract<py::object>()); })
        .def("__repr__", [](const problem &p) {
            std::ostringstream o;
            o << p;
            return o.str();
        });
    py::class_<population>(m, "population", "")
        .def(py::init([](const problem &p, unsigned n, unsigned seed) { return population(p, n, seed); }))
        .def(py::init([](const py::object &o, unsigned n, unsigned seed) { return population(problem(o), n, seed); }))
        .def("push_back", [](population &p, const vector_double &x) { p.push_back(x); })
        .def("push_back", [](population &p, const vector_double &x, const vector_double &f) { p.push_back(x, f); })
        .def("get_x", [](const population &p) { return p.get_x(); })
        .def("get_f", [](const population &p) { return p.get_f(); })
        .def("get_ID", [](const population &p) { return p.get_ID(); })
        .def("set_xf", [](population &p, unsigned i, const vector_double &x, const vector_double &f) { p.set_xf(i, x, f); })
        .def("__len__", [](const population &p) { return p.size(); })
        .def_property_readonly("champion_x", [](const population &p) { return p.champion_x(); })
        .def_property_readonly("champion_f", [](const population &p) { return p.champion_f(); })
        .def_property_readonly("problem", [](const population &p) { return p.get_problem(); });
    py::class_<algorithm>(m, "algorithm", "")
        .def(py::init([](const py::object &o) { return algorithm(o); }))
        .def("evolve", [](const algorithm &a, const population &p) { return a.evolve(p); })
        .def("set_verbosity", [](algorithm &a, unsigned v) { a.set_verbosity(v); })
        .def("extract", [](const algorithm &a, const py::object &) { return held(a.extract<py::object>()); })
        .def("__repr__", [](const algorithm &a) {
            std::ostringstream o;
            o << a;
            return o.str();
        });
    py::class_<pagmo::bfe>(m, "bfe", "").def(py::init([]() { return pagmo::bfe(serial_bfe{}); }));
}
