// E08: a phenotype correction pc makes the expression compute pc(x, g), g being the current uncorrected expression, through
// every history of set/unset, chromosome and constant changes, copies and assignments.
#include "common.hpp"
using namespace hc;

template <typename T>
using G = std::function<std::vector<T>(const std::vector<T> &)>;
// the corrections; calls with any number of evaluations of g
struct pc_scale { // x0 * g(x) + 1
    template <typename T>
    static std::vector<T> call(const std::vector<T> &x, const G<T> &g)
    {
        auto v = g(x);
        for (auto &q : v) q = x[0] * q + T(1.);
        return v;
    }
};
struct pc_even { // g(x) + g(-x)
    template <typename T>
    static std::vector<T> call(const std::vector<T> &x, const G<T> &g)
    {
        std::vector<T> y(x);
        for (auto &q : y) q = -1. * q;
        auto v = g(x), w = g(y);
        for (std::size_t i = 0; i < v.size(); ++i) v[i] += w[i];
        return v;
    }
};
struct pc_const { // does not use g
    template <typename T>
    static std::vector<T> call(const std::vector<T> &x, const G<T> &)
    {
        return {x[0] * x[0]};
    }
};
template <typename C, typename T>
struct callable {
    std::vector<T> operator()(const std::vector<T> &x, G<T> g) const
    {
        return C::template call<T>(x, g);
    }
    template <typename A>
    void serialize(A &, unsigned)
    {
    }
};
struct model {
    uvec x;
    double c = 0;
    int pc = 0;
};
static shape S(2u, 1u, 1u, 2u, 3u, {2u, 2u}, 3u);
static const std::vector<uvec> X{{0, 0, 1, 1, 2, 2, 3}, {2, 0, 1, 0, 1, 2, 3}, {1, 1, 1, 2, 0, 0, 2}, {0, 0, 0, 0, 0, 0, 0}};
static dvec expected(const model &m, double px)
{
    static const auto f = ref_kernels({"sum", "mul", "diff"});
    auto g = [&](const dvec &in) { return S.eval(m.x, {in[0], m.c}, f); };
    switch (m.pc) {
        case 1: return pc_scale::call<double>({px}, g);
        case 2: return pc_even::call<double>({px}, g);
        case 3: return pc_const::call<double>({px}, g);
        default: return g({px});
    }
}
inline double cf(double v) { return v; }
template <typename T>
double cf(const T &v) { return v.constant_cf(); }

template <typename T>
void run(const std::string &type, unsigned depth)
{
    using E = expression<T>;
    using pcf = typename E::pc_fun_type;
    static const double cs[] = {0.5, -2., 3.};
    struct op {
        std::string name;
        std::function<void(E *, model *)> f;
    };
    std::vector<op> O;
    for (int s = 0; s < 2; ++s) {
        auto sn = std::to_string(s);
        O.push_back({"set_pc" + sn + "(scale)", [s](E *e, model *m) { e[s].set_phenotype_correction(pcf(callable<pc_scale, T>{})); m[s].pc = 1; }});
        O.push_back({"set_pc" + sn + "(even)", [s](E *e, model *m) { e[s].set_phenotype_correction([](const std::vector<T> &x, G<T> g) { return pc_even::call<T>(x, g); }); m[s].pc = 2; }});
        O.push_back({"set_pc" + sn + "(const)", [s](E *e, model *m) { pcf f(callable<pc_const, T>{}); e[s].set_phenotype_correction(f); f = callable<pc_scale, T>{}; m[s].pc = 3; }});
        O.push_back({"unset" + sn, [s](E *e, model *m) { e[s].unset_phenotype_correction(); m[s].pc = 0; }});
        O.push_back({"set" + sn, [s](E *e, model *m) {
                         unsigned i = 0;
                         while (i < X.size() && X[i] != m[s].x) ++i;
                         m[s].x = X[(i + 1u) % X.size()];
                         e[s].set(m[s].x);
                     }});
        O.push_back({"mutate" + sn, [s](E *e, model *m) { e[s].mutate_random(2u); m[s].x = e[s].get(); }});
        O.push_back({"eph" + sn, [s](E *e, model *m) { m[s].c = m[s].c == cs[0] ? cs[1] : cs[0]; e[s].set_eph_val({T(m[s].c)}); }});
    }
    O.push_back({"0=1", [](E *e, model *m) { e[0] = e[1]; m[0] = m[1]; }});
    O.push_back({"1=0", [](E *e, model *m) { e[1] = e[0]; m[1] = m[0]; }});
    O.push_back({"1=copy(0)", [](E *e, model *m) { E t(e[0]); e[1] = std::move(t); m[1] = m[0]; }});
    O.push_back({"0=E(move(copy 0))", [](E *e, model *) { E t(e[0]); E u(std::move(t)); e[0] = std::move(u); }});
    const auto pts = dvec{0.7, -1.3, 0.};
    std::vector<unsigned> dims(depth - 1u, static_cast<unsigned>(O.size()));
    for (unsigned first = 0; first < O.size(); ++first) {
        if (!mc::begin(type + " first " + O[first].name)) continue;
        ++mc::rep().states;
        auto history = [&](const uvec &seq, bool always) {
            E e[2] = {E(1u, 1u, 1u, 2u, 3u, 2u, kernels<T>({"sum", "mul", "diff"}), 1u, 3u), E(1u, 1u, 1u, 2u, 3u, 2u, kernels<T>({"sum", "mul", "diff"}), 1u, 4u)};
            model m[2];
            for (int s = 0; s < 2; ++s) {
                m[s].x = X[s];
                e[s].set(X[s]);
                m[s].c = cs[2 * s];
                e[s].set_eph_val({T(m[s].c)});
            }
            for (unsigned k = 0; k < seq.size(); ++k) {
                O[seq[k]].f(e, m);
                ++mc::rep().transitions;
                if (!always && k + 1u < seq.size()) continue;
                for (int s = 0; s < 2; ++s) {
                    for (double px : pts) {
                        auto want = expected(m[s], px);
                        std::vector<T> in{T(px)};
                        auto got = e[s](in), again = E(e[s])(in);
                        bool ok = got.size() == want.size() && again.size() == want.size();
                        for (std::size_t i = 0; ok && i < want.size(); ++i) ok = mc::close(cf(got[i]), want[i]) && mc::same_bits(cf(got[i]), cf(again[i]));
                        // the loss is that of the corrected output
                        T lab(0.25);
                        double l = cf(e[s].loss(std::vector<std::vector<T>>{in}, std::vector<std::vector<T>>{{lab}}, "MSE"));
                        ok = ok && mc::close(l, (want[0] - 0.25) * (want[0] - 0.25));
                        mc::check(ok, "value", [&]() {
                            std::string h;
                            for (unsigned q = 0; q <= k; ++q) h += O[seq[q]].name + " ";
                            return h + "slot " + std::to_string(s) + " at " + mc::str(px) + " gives " + mc::str(cf(got[0])) + " expected " + mc::str(want[0]) + " loss " + mc::str(l);
                        });
                    }
                    std::string w = inconsistent(e[s], S);
                    mc::check(w.empty(), "consistent", [&]() { return w; });
                }
            }
            ++mc::rep().traces;
        };
        mc::product(dims, [&](const uvec &rest) {
            uvec seq{first};
            seq.insert(seq.end(), rest.begin(), rest.end());
            mc::alive();
            history(seq, true);  // evaluated after every step
            history(seq, false); // evaluated at the end only
        });
    }
}
int main(int argc, char **argv)
{
    return mc::main(argc, argv, []() {
        const bool th = mc::rep().thorough;
        run<double>("double", th ? 4u : 3u);
        run<audi::gdual_d>("gdual_d", th ? 3u : 2u);
        if (mc::begin("throwing")) {
            // a correction that throws leaves the expression as it was
            expression<double> e(1u, 1u, 1u, 2u, 3u, 2u, kernels({"sum", "mul", "diff"}), 0u, 3u);
            e.set_phenotype_correction([](const dvec &x, G<double>) -> dvec { if (x[0] > 0.) throw std::domain_error("x"); return x; });
            auto o = mc::outcome_of([&]() { e(dvec{1.}); });
            mc::check(o.find("domain_error") != std::string::npos && e(dvec{-1.}) == dvec{-1.}, "throw", [&]() { return o; });
            e.unset_phenotype_correction();
            mc::check(mc::outcome_of([&]() { e(dvec{1.}); }).empty(), "throw", []() { return std::string(); });
            // symbols are those of the uncorrected expression, a wrong input size inside g is refused
            e.set_phenotype_correction([](const dvec &, G<double> g) { return g(dvec{1., 2.}); });
            mc::check(mc::outcome_of([&]() { e(dvec{1.}); }) == "invalid_argument", "throw", []() { return std::string("inner size"); });
        }
    });
}
