// E11: an expression of any kind restored from an archive is the one that was saved: same chromosome, constants, symbols,
// weights, correction, values and formulas, and the same future - every later mutation gives the same result.
#include "common.hpp"
#include <dcgp/expression_ann.hpp>
#include <dcgp/expression_weighted.hpp>
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
DCGP_S11N_FUNCTION_IMPLEMENT_MULTI(my_sum)
DCGP_S11N_FUNCTION_IMPLEMENT_STRING(print_my_sum)
DCGP_S11N_FUNCTION_IMPLEMENT_MULTI(my_mul)
DCGP_S11N_FUNCTION_IMPLEMENT_STRING(print_my_mul)
DCGP_S11N_FUNCTION_IMPLEMENT_MULTI(my_diff)
DCGP_S11N_FUNCTION_IMPLEMENT_STRING(print_my_diff)
DCGP_S11N_FUNCTION_IMPLEMENT_MULTI(my_sig)
DCGP_S11N_FUNCTION_IMPLEMENT_STRING(print_my_sig)
DCGP_S11N_FUNCTION_IMPLEMENT_MULTI(my_tanh)
DCGP_S11N_FUNCTION_IMPLEMENT_STRING(print_my_tanh)
using namespace hc;
using dcgp::expression_ann;
using dcgp::expression_weighted;
using gd = audi::gdual_d;

template <typename T>
struct scale {
    double k = 1.;
    std::vector<T> operator()(const std::vector<T> &x, std::function<std::vector<T>(const std::vector<T> &)> g) const
    {
        auto v = g(x);
        for (auto &q : v) q = x[0] * q + T(k);
        return v;
    }
    template <typename A>
    void serialize(A &a, unsigned)
    {
        a &k;
    }
};
DCGP_S11N_FUNCTION_EXPORT(e11_scale_d, scale<double>, std::vector<double>, const std::vector<double> &, std::function<std::vector<double>(const std::vector<double> &)>)
DCGP_S11N_FUNCTION_EXPORT(e11_scale_g, scale<gd>, std::vector<gd>, const std::vector<gd> &, std::function<std::vector<gd>(const std::vector<gd> &)>)

static std::string num(double v) { return mc::str(v); }
template <typename T>
std::string num(const T &v) { return mc::str(v.constant_cf()); }
template <typename T>
std::string nums(const std::vector<T> &v)
{
    std::string s;
    for (auto &q : v) s += num(q) + ",";
    return s;
}
template <typename Ex>
struct extra {
    static std::string show(const Ex &) { return ""; }
};
template <typename T>
struct extra<expression_weighted<T>> {
    static std::string show(const expression_weighted<T> &e) { return nums(e.get_weights()); }
};
template <>
struct extra<expression_ann> {
    static std::string show(const expression_ann &e)
    {
        std::string s = mc::str(e.get_weights()) + mc::str(e.get_biases());
        expression_ann c(e);
        auto d = c.d_loss({dvec(e.get_n(), 0.7)}, {dvec(e.get_m(), 0.25)}, expression<double>::loss_type::MSE);
        return s + mc::str(std::get<0>(d)) + mc::str(std::get<1>(d)) + mc::str(std::get<2>(d));
    }
};
template <typename Ex, typename T>
std::string finger(const Ex &e)
{
    std::string s = mc::str(e.get()) + mc::str(e.get_active_nodes()) + mc::str(e.get_active_genes()) + mc::str(e.get_lb()) + mc::str(e.get_ub()) + mc::str(e.get_arity()) + mc::str(e.get_gene_idx()) + std::to_string(e.get_n()) + std::to_string(e.get_m()) + std::to_string(e.get_r()) + std::to_string(e.get_c()) + std::to_string(e.get_l());
    const unsigned nin = e.get_n() - e.get_eph_val().size();
    std::vector<T> p;
    std::vector<std::string> sy;
    for (unsigned i = 0; i < nin; ++i) {
        p.push_back(T(0.3 + 0.4 * i));
        sy.push_back("x" + std::to_string(i));
    }
    s += nums(e.get_eph_val());
    for (auto &v : e.get_eph_symb()) s += v + ",";
    for (auto &k : e.get_f()) s += k.get_name() + std::to_string(int(k.get_thread_safety())) + ",";
    s += nums(e(p));
    for (auto &v : e(sy)) s += v + ";";
    s += num(e.loss(std::vector<std::vector<T>>{p}, std::vector<std::vector<T>>{std::vector<T>(e.get_m(), T(0.5))}, "MSE"));
    return s + extra<Ex>::show(e) + mc::str(e);
}
// the same without formulas
template <typename Ex>
std::string light(const Ex &e)
{
    std::string s = mc::str(e.get()) + mc::str(e.get_active_nodes()) + mc::str(e.get_active_genes()) + mc::str(e.get_lb()) + mc::str(e.get_ub()) + mc::str(e.get_arity()) + mc::str(e.get_gene_idx()) + mc::str(e.get_eph_val()) + mc::str(e.get_eph_symb());
    for (auto &k : e.get_f()) s += k.get_name();
    return s + mc::str(e(dvec(e.get_n() - e.get_eph_val().size(), 0.375))) + extra<Ex>::show(e);
}
template <typename Ex>
struct op {
    std::string name;
    std::function<void(Ex &)> run;
};
template <typename Ex>
std::vector<op<Ex>> common_ops()
{
    return {{"mutate(1)", [](Ex &e) { e.mutate(1u); }},
            {"random(3)", [](Ex &e) { e.mutate_random(3u); }},
            {"active(2)", [](Ex &e) { e.mutate_active(2u); }},
            {"ogene", [](Ex &e) { e.mutate_ogene(1u); }},
            {"inactive", [](Ex &e) { e.mutate_inactive(2u); }},
            {"seed", [](Ex &e) { e.seed(12); }}};
}
template <typename OA, typename IA, typename X>
static void roundtrip(const X &x, X &y)
{
    std::stringstream ss;
    {
        OA a(ss);
        a << x;
    }
    {
        IA a(ss);
        a >> y;
    }
}
template <typename Ex, typename T, typename OA, typename IA>
void explore(const std::string &type, const std::function<Ex(unsigned)> &make, const std::vector<op<Ex>> &extra_ops, const std::vector<Ex> &targets)
{
    auto O = common_ops<Ex>();
    O.insert(O.end(), extra_ops.begin(), extra_ops.end());
    const bool th = mc::rep().thorough;
    const unsigned N = static_cast<unsigned>(O.size());
    for (unsigned a = 0; a <= N; ++a) {
        if (!mc::begin(type + " history " + (a < N ? O[a].name : "none"))) continue;
        for (unsigned b = 0; b <= N; ++b) {
            if (a == N && b < N) continue;
            for (unsigned seed = 0; seed < (th ? 6u : 2u); ++seed) {
                Ex e = make(seed);
                if (a < N) O[a].run(e);
                if (b < N) O[b].run(e);
                const auto f = finger<Ex, T>(e);
                ++mc::rep().states;
                for (std::size_t t = 0; t < targets.size(); ++t) {
                    Ex r(targets[t]);
                    std::string o = mc::outcome_of([&]() { roundtrip<OA, IA>(e, r); });
                    auto where = [&]() { return std::string(a < N ? O[a].name : "") + " " + (b < N ? O[b].name : "") + " seed " + std::to_string(seed) + " into target " + std::to_string(t) + " " + o; };
                    mc::check(o.empty() && finger<Ex, T>(r) == f && finger<Ex, T>(e) == f, "restored", [&]() { return where() + "\n" + finger<Ex, T>(r) + "\nexpected\n" + f; });
                    Ex rr(targets[(t + 1u) % targets.size()]);
                    roundtrip<OA, IA>(r, rr);
                    mc::check(finger<Ex, T>(rr) == f, "restored-twice", where);
                    // every future of length 2
                    mc::product({N, th ? N : (t == 0u ? N : 1u)}, [&](const uvec &q) {
                        Ex x(e), y(r), z(rr);
                        for (auto i : q) {
                            O[i].run(x);
                            O[i].run(y);
                            O[i].run(z);
                        }
                        const auto g = finger<Ex, T>(x);
                        mc::check(finger<Ex, T>(y) == g && finger<Ex, T>(z) == g, "future", [&]() { return where() + " then " + O[q[0]].name + " " + O[q[1]].name; });
                        mc::rep().transitions += 3u;
                        mc::alive();
                    });
                    ++mc::rep().traces;
                }
            }
        }
    }
    if (mc::begin(type + " pointer and containers")) {
        // several objects in one archive, and through a pointer to the base class where one is registered
        std::vector<Ex> v{make(1u), make(2u), make(1u)}, w{targets[0]};
        v[2].mutate_random(3u);
        roundtrip<OA, IA>(v, w);
        bool ok = w.size() == 3u;
        for (std::size_t i = 0; ok && i < 3u; ++i) ok = finger<Ex, T>(v[i]) == finger<Ex, T>(w[i]);
        mc::check(ok, "vector", []() { return std::string(); });
        ++mc::rep().traces;
    }
}
// large objects, with a restored twin after each operation
template <typename Ex, typename T, typename OA, typename IA>
void large(const std::string &type, const std::function<Ex(unsigned)> &make, const std::vector<op<Ex>> &extra_ops, const Ex &target)
{
    if (!mc::begin(type)) return;
    auto O = common_ops<Ex>();
    O.insert(O.end(), extra_ops.begin(), extra_ops.end());
    for (unsigned seed : {1u, 2u}) {
        Ex e = make(seed);
        for (std::size_t i = 0; i < O.size(); ++i) {
            Ex r(target);
            std::string o = mc::outcome_of([&]() { roundtrip<OA, IA>(e, r); });
            const auto f = light<Ex>(e);
            mc::check(o.empty() && light<Ex>(r) == f, "restored", [&]() { return "before " + O[i].name + " " + o; });
            O[i].run(e);
            O[i].run(r);
            mc::check(light<Ex>(r) == light<Ex>(e), "future", [&]() { return O[i].name; });
            if (i % 2u) e = r;
            ++mc::rep().transitions;
            mc::alive();
        }
        ++mc::rep().states;
        ++mc::rep().traces;
    }
}
template <typename OA, typename IA>
void all(const std::string &ar)
{
    using E = expression<double>;
    using W = expression_weighted<double>;
    using Gd = expression<gd>;
    using A = expression_ann;
    const std::vector<std::string> k3{"sum", "mul", "diff"}, a3{"sum", "tanh", "sig"};
    {
        std::vector<op<E>> x{{"eph", [](E &e) { e.set_eph_val(dvec{0.1, -7.25}); }},
                             {"symb", [](E &e) { e.set_eph_symb({"alpha", "beta gamma"}); }},
                             {"pc", [](E &e) { scale<double> s; s.k = 3.; e.set_phenotype_correction(s); }},
                             {"unset", [](E &e) { e.unset_phenotype_correction(); }},
                             {"set lb", [](E &e) { e.set(uvec(e.get_lb())); }}};
        E t(1u, 1u, 1u, 1u, 1u, 1u, kernels({"sum"}), 0u, 1u), u(3u, 2u, 3u, 4u, 2u, 3u, kernels({"mul", "sum"}), 3u, 1u);
        u.set_phenotype_correction(scale<double>());
        explore<E, double, OA, IA>(ar + " expression", [&](unsigned s) { return E(1u, 2u, 2u, 2u, 2u, uvec{2u, 1u}, kernels(k3), 2u, s); }, x, {t, u});
    }
    {
        std::vector<op<Gd>> x{{"eph", [](Gd &e) { e.set_eph_val({gd(0.1)}); }},
                              {"pc", [](Gd &e) { scale<gd> s; s.k = 3.; e.set_phenotype_correction(s); }}};
        Gd t(1u, 1u, 1u, 1u, 1u, 1u, kernels<gd>({"sum"}), 0u, 1u);
        explore<Gd, gd, OA, IA>(ar + " gdual", [&](unsigned s) { return Gd(1u, 1u, 1u, 3u, 2u, 2u, kernels<gd>(k3), 1u, s); }, x, {t});
    }
    {
        std::vector<op<W>> x{{"weights", [](W &e) { dvec w(e.get_weights()); for (std::size_t i = 0; i < w.size(); ++i) w[i] = 0.1 + i / 3.; e.set_weights(w); }},
                             {"weight", [](W &e) { e.set_weight(3u, 1u, -0.3); }}};
        W t(1u, 1u, 1u, 1u, 1u, 1u, kernels({"sum"}), 1u), u(2u, 1u, 3u, 3u, 1u, 3u, kernels({"mul"}), 1u);
        explore<W, double, OA, IA>(ar + " weighted", [&](unsigned s) { return W(2u, 1u, 2u, 2u, 3u, uvec{2u, 3u}, kernels(k3), s); }, x, {t, u});
    }
    {
        std::vector<op<A>> x{{"weights", [](A &e) { e.randomise_weights(0., 1., 3u); }},
                             {"biases", [](A &e) { e.randomise_biases(0., 1., 4u); }},
                             {"sgd", [](A &e) { std::vector<dvec> p{{0.5, 0.25}, {-1., 2.}}, l{{1., 0.}, {0.5, 0.5}}; e.sgd(p, l, 0.125, 1u, "MSE", 0u, false); }}};
        A t(1u, 1u, 1u, 1u, 1u, 1u, kernels({"sum"}), 1u), u(2u, 1u, 3u, 3u, 1u, 3u, kernels({"sig", "tanh"}), 1u);
        const auto L = ref::large(3u);
        for (unsigned i = 0; i < L.size(); ++i) {
            const shape &s = L[i];
            const unsigned eph = s.n > 11u ? 11u : 1u;
            large<E, double, OA, IA>(ar + " large expression " + s.str(), [&](unsigned q) { E e(s.n - eph, s.m, s.r, s.c, s.l, s.arity, kernels(k3), eph, q); e.set(ref::chain(s)); return e; }, {{"eph", [eph](E &e) { dvec v; for (unsigned i = 0; i < eph; ++i) v.push_back(0.1 * i - 1. / 3.); e.set_eph_val(v); }}, {"chain", [&s](E &e) { e.set(ref::chain(s)); }}}, E());
            large<A, double, OA, IA>(ar + " large ann " + s.str(), [&](unsigned q) { A e(s.n, s.m, s.r, s.c, s.l, s.arity, kernels(a3), q); e.set(ref::chain(s)); e.randomise_weights(0., 1., q); return e; }, {{"biases", [](A &e) { e.randomise_biases(0., 1., 4u); }}, {"chain", [&s](A &e) { e.set(ref::chain(s)); }}}, A());
            large<W, double, OA, IA>(ar + " large weighted " + s.str(), [&](unsigned q) { W e(s.n, s.m, s.r, s.c, s.l, s.arity, kernels(k3), q); e.set(ref::chain(s)); return e; }, {{"weights", [](W &e) { dvec w(e.get_weights()); for (std::size_t i = 0; i < w.size(); ++i) w[i] = 0.1 + (i % 40u) / 3.; e.set_weights(w); }}, {"chain", [&s](W &e) { e.set(ref::chain(s)); }}}, W());
        }
        explore<A, double, OA, IA>(ar + " ann", [&](unsigned s) { return A(2u, 2u, 2u, 2u, 3u, uvec{2u, 3u}, kernels(a3), s); }, x, {t, u});
    }
}
int main(int argc, char **argv)
{
    return mc::main(argc, argv, []() {
        all<boost::archive::text_oarchive, boost::archive::text_iarchive>("text");
        all<boost::archive::binary_oarchive, boost::archive::binary_iarchive>("binary");
    });
}
