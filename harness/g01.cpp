// The symbolic regression gym. MODE 1 = G01: synthetic problems; MODE 2 = G02: measured data.
// All problems x all histories of two earlier requests into the same vectors.
#include "common.hpp"
#include <cstring>
#include <set>
#include <dcgp/gym.hpp>
#include <dcgp/problems/symbolic_regression.hpp>
using namespace hc;
using dmat = std::vector<dvec>;
using gen_t = void (*)(dmat &, dmat &);
namespace gy = dcgp::gym;
static const double PI = 3.14159265358979323846, E = 2.71828182845904523536;
static double p(double x, unsigned n)
{
    double r = 1;
    for (unsigned i = 0; i < n; ++i) r *= x;
    return r;
}
struct prob {
    const char *name;
    gen_t g;
    unsigned N;
    std::vector<std::pair<double, double>> dom; // of the synthetic ones
    std::function<double(const dvec &)> f;
    double rss, tol; // of the measured ones: certified residual sum of squares of the certified model f
};
static std::vector<prob> problems()
{
    std::vector<prob> v;
#if MODE == 1
    v.push_back({"koza_quintic", gy::generate_koza_quintic, 10u, {{-3., 3.}}, [](const dvec &x) { return p(x[0], 5) - 2. * p(x[0], 3) + x[0]; }, 0, 0});
    v.push_back({"P1", gy::generate_P1, 10u, {{1., 3.}}, [](const dvec &x) { return p(x[0], 5) - PI * p(x[0], 3) + x[0]; }, 0, 0});
    v.push_back({"P2", gy::generate_P2, 10u, {{0.1, 5.}}, [](const dvec &x) { return p(x[0], 5) - PI * p(x[0], 3) + 2. * PI / x[0]; }, 0, 0});
    v.push_back({"P3", gy::generate_P3, 10u, {{-0.9, 1.}}, [](const dvec &x) { return (E * p(x[0], 5) + p(x[0], 3)) / (x[0] + 1.); }, 0, 0});
    v.push_back({"P4", gy::generate_P4, 10u, {{-1., 1.}}, [](const dvec &x) { return std::sin(PI * x[0]) + 1. / x[0]; }, 0, 0});
    v.push_back({"P5", gy::generate_P5, 10u, {{1., 3.}}, [](const dvec &x) { return E * p(x[0], 5) - PI * p(x[0], 3) + x[0]; }, 0, 0});
    v.push_back({"P6", gy::generate_P6, 10u, {{-2.1, 1.}}, [](const dvec &x) { return (E * p(x[0], 2) - 1.) / (PI * (x[0] + 2.)); }, 0, 0});
    v.push_back({"P7", gy::generate_P7, 10u, {{-1., 1.}}, [](const dvec &x) { return std::cos(PI * x[0]) + std::sin(E * x[0]); }, 0, 0});
    v.push_back({"kotanchek", gy::generate_kotanchek, 100u, {{0.3, 4.}, {0.3, 4.}}, [](const dvec &x) { return std::exp(-p(x[0] - 1., 2)) / (1.2 + p(x[1] - 2.5, 2)); }, 0, 0});
    auto sal = [](const dvec &x) { double s = std::sin(x[0]), c = std::cos(x[0]); return std::exp(-x[0]) * p(x[0], 3) * c * s * (c * s * s - 1.); };
    v.push_back({"salutowicz", gy::generate_salutowicz, 100u, {{0.05, 10.}}, sal, 0, 0});
    v.push_back({"salutowicz2d", gy::generate_salutowicz2d, 601u, {{0.05, 10.}, {0.05, 10.}}, [sal](const dvec &x) { return sal(x) * (x[1] - 5.); }, 0, 0});
    v.push_back({"uball5d", gy::generate_uball5d, 1024u, std::vector<std::pair<double, double>>(5u, {0.05, 6.05}), [](const dvec &x) { double s = 5.; for (double z : x) s += p(z - 3., 2); return 10. / s; }, 0, 0});
    v.push_back({"ratpol3d", gy::generate_ratpol3d, 300u, {{0.05, 2.}, {1., 2.}, {0.05, 2.}}, [](const dvec &x) { return 30. * (x[0] - 1.) * (x[2] - 1.) / (p(x[1], 2) * (x[0] - 10.)); }, 0, 0});
    v.push_back({"sinecosine", gy::generate_sinecosine, 30u, {{0.1, 5.9}, {0.1, 5.9}}, [](const dvec &x) { return 6. * std::sin(x[0]) * std::cos(x[1]); }, 0, 0});
    v.push_back({"ripple", gy::generate_ripple, 300u, {{0.05, 6.05}, {0.05, 6.05}}, [](const dvec &x) { return (x[0] - 3.) * (x[1] - 3.) + 2. * std::sin((x[0] - 4.) * (x[1] - 4.)); }, 0, 0});
    v.push_back({"ratpol2d", gy::generate_ratpol2d, 50u, {{0.05, 6.05}, {0.05, 6.05}}, [](const dvec &x) { return (p(x[0] - 3., 4) + p(x[1] - 3., 3) - (x[1] - 3.)) / (p(x[1] - 2., 4) + 10.); }, 0, 0});
#else
    auto chw = [](dvec b) { return [b](const dvec &x) { return std::exp(-b[0] * x[0]) / (b[1] + b[2] * x[0]); }; };
    v.push_back({"chwirut1", gy::generate_chwirut1, 214u, {}, chw({1.9027818370E-01, 6.1314004477E-03, 1.0530908399E-02}), 2.3844771393E+03, 1e-9});
    v.push_back({"chwirut2", gy::generate_chwirut2, 54u, {}, chw({1.6657666537E-01, 5.1653291286E-03, 1.2150007096E-02}), 5.1304802941E+02, 1e-9});
    v.push_back({"daniel_wood", gy::generate_daniel_wood, 6u, {}, [](const dvec &x) { return 7.6886226176E-01 * std::pow(x[0], 3.8604055871E+00); }, 4.3173084083E-03, 1e-9});
    v.push_back({"gauss1", gy::generate_gauss1, 250u, {}, [](const dvec &x) { return 98.778210871 * std::exp(-0.010497276517 * x[0]) + 100.48990633 * std::exp(-p((x[0] - 67.481111276) / 23.129773360, 2)) + 71.994503004 * std::exp(-p((x[0] - 178.99805021) / 18.389389025, 2)); }, 1.3158222432E+03, 1e-9});
    v.push_back({"kirby2", gy::generate_kirby2, 151u, {}, [](const dvec &x) { return (1.6745063063 - 0.13927397867 * x[0] + 2.5961181191E-03 * p(x[0], 2)) / (1. - 1.7241811870E-03 * x[0] + 2.1664802578E-05 * p(x[0], 2)); }, 3.9050739624, 1e-9});
    v.push_back({"lanczos2", gy::generate_lanczos2, 24u, {}, [](const dvec &x) { return 0.096251029939 * std::exp(-1.0057332849 * x[0]) + 0.86424689056 * std::exp(-3.0078283915 * x[0]) + 1.5529016879 * std::exp(-5.0028798100 * x[0]); }, 2.2299428125E-11, 1e-8});
    v.push_back({"misra1b", gy::generate_misra1b, 14u, {}, [](const dvec &x) { return 3.3799746163E+02 * (1. - 1. / p(1. + 3.9039091287E-04 * x[0] / 2., 2)); }, 7.5464681533E-02, 1e-9});
    v.push_back({"luca1", gy::generate_luca1, 631u, {}, nullptr, 0., 0.});
#endif
    return v;
}
static unsigned long long fnv(const dmat &m)
{
    unsigned long long h = 1469598103934665603ull;
    for (auto &r : m)
        for (double d : r) {
            unsigned char c[8];
            std::memcpy(c, &d, 8);
            for (auto b : c) h = (h ^ b) * 1099511628211ull;
        }
    return h;
}
static void body()
{
    const auto P = problems();
    auto check = [](bool ok, const char *key, const std::string &msg) { mc::check(ok, key, [&]() { return msg; }); };
    for (auto &q : P) {
        if (!mc::begin(q.name)) continue;
        ++mc::rep().states;
        dmat X, Y;
        q.g(X, Y);
        mc::outcome(std::to_string(fnv(X)) + std::to_string(fnv(Y)));
        check(X.size() == q.N && Y.size() == q.N, "size", std::to_string(X.size()) + " points, " + std::to_string(Y.size()) + " labels");
        const std::size_t D = q.dom.empty() ? 1u : q.dom.size();
        bool shp = true;
        for (auto &x : X) shp = shp && x.size() == D;
        for (auto &y : Y) shp = shp && y.size() == 1u;
        check(shp, "dimensions", q.name);
        if (!shp || X.size() != Y.size() || X.empty()) continue;
        if (!q.dom.empty()) {
            for (std::size_t i = 0; i < X.size(); ++i) {
                ++mc::rep().transitions;
                double w = q.f(X[i]);
                check(mc::close(Y[i][0], w, 1e-9, 1e-12), "label", "the label of " + mc::str(X[i]) + " is " + mc::str(Y[i]) + " instead of " + mc::str(w));
                for (std::size_t j = 0; j < D; ++j) check(X[i][j] >= q.dom[j].first && X[i][j] <= q.dom[j].second, "domain", mc::str(X[i]));
                if (D == 1u) {
                    double x = q.dom[0].first + static_cast<double>(i) * (q.dom[0].second - q.dom[0].first) / (static_cast<double>(q.N) - 1.);
                    check(mc::close(X[i][0], x, 1e-12, 1e-12), "equally-spaced", "point " + std::to_string(i) + " is " + mc::str(X[i]) + " instead of " + mc::str(x));
                }
            }
            if (D > 1u)
                for (std::size_t j = 0; j < D; ++j) { // all of the domain is sampled, and by different points
                    const double a = q.dom[j].first, b = q.dom[j].second;
                    unsigned cell[4] = {0, 0, 0, 0};
                    std::set<double> val;
                    for (auto &x : X) {
                        cell[std::min(3, std::max(0, static_cast<int>(4. * (x[j] - a) / (b - a))))]++;
                        val.insert(x[j]);
                    }
                    for (unsigned c : cell) check(c > 0u, "coverage", "component " + std::to_string(j));
                    check(val.size() == X.size(), "coverage", "component " + std::to_string(j) + " repeats values");
                    for (std::size_t k = 0; k < j; ++k) {
                        bool same = true;
                        for (auto &x : X) same = same && x[j] == x[k];
                        check(!same, "coverage", "equal components");
                    }
                }
        } else if (q.f) {
            long double s = 0;
            for (std::size_t i = 0; i < X.size(); ++i) {
                ++mc::rep().transitions;
                long double r = static_cast<long double>(Y[i][0]) - q.f(X[i]);
                s += r * r;
            }
            check(mc::close(static_cast<double>(s), q.rss, q.tol, 0.), "certified-residual", "residual sum of squares " + mc::str(static_cast<double>(s)) + ", certified " + mc::str(q.rss));
        } else
            check(fnv(X) == 7525044123715117031ull && fnv(Y) == 9503046884021504693ull, "published-data", std::to_string(fnv(X)) + " " + std::to_string(fnv(Y)));
        // whatever was in the vectors and whatever was asked before: the same data
        const dmat X0(X), Y0(Y);
        for (auto &a : P)
            for (auto &b : P) {
                ++mc::rep().transitions;
                dmat U(3u, dvec(2u, 7.)), V;
                a.g(U, V);
                for (auto &r : U) for (double &z : r) z = -1.;
                for (auto &r : V) r.clear();
                b.g(U, V);
                U.resize(U.size() / 2u);
                q.g(U, V);
                check(U == X0 && V == Y0, "history", std::string("after ") + a.name + ", " + b.name);
            }
        // it makes a regression problem
        auto oc = mc::outcome_of([&]() {
            dcgp::symbolic_regression sr(X, Y, 1u, 3u, 4u, 2u, dcgp::kernel_set<double>({"sum", "mul"})(), 1u, false, 0u, "MSE", 1u);
            dvec x{0.5};
            const auto B = ref::bases(shape(static_cast<unsigned>(D) + 1u, 1u, 1u, 3u, 4u, uvec(3u, 2u), 2u));
            x.insert(x.end(), B[0].begin(), B[0].end());
            check(std::isfinite(sr.fitness(x)[0]), "problem", "fitness");
        });
        check(oc.empty(), "problem", oc);
        ++mc::rep().traces;
    }
}
int main(int argc, char **argv) { return mc::main(argc, argv, body); }
