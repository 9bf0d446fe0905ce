// MODE 3 = L03: an algorithm's result is determined by its parameters, its seed and what it was used for before; verbosity,
// copies, archives and the batch evaluation of the fitness change nothing; the log says what happened.
// MODE 5 = S04: a symbolic regression problem restored from an archive is the one that was saved.
#include "common.hpp"
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <dcgp/problems/symbolic_regression.hpp>
#include <pagmo/problem.hpp>
DCGP_S11N_FUNCTION_IMPLEMENT_MULTI(my_sum)
DCGP_S11N_FUNCTION_IMPLEMENT_STRING(print_my_sum)
DCGP_S11N_FUNCTION_IMPLEMENT_MULTI(my_mul)
DCGP_S11N_FUNCTION_IMPLEMENT_STRING(print_my_mul)
DCGP_S11N_FUNCTION_IMPLEMENT_MULTI(my_diff)
DCGP_S11N_FUNCTION_IMPLEMENT_STRING(print_my_diff)
DCGP_S11N_FUNCTION_IMPLEMENT_MULTI(my_div)
DCGP_S11N_FUNCTION_IMPLEMENT_STRING(print_my_div)
DCGP_S11N_FUNCTION_IMPLEMENT_MULTI(my_pdiv)
DCGP_S11N_FUNCTION_IMPLEMENT_STRING(print_my_pdiv)
DCGP_S11N_FUNCTION_IMPLEMENT_MULTI(my_sin)
DCGP_S11N_FUNCTION_IMPLEMENT_STRING(print_my_sin)
PAGMO_S11N_PROBLEM_IMPLEMENT(dcgp::symbolic_regression)
#if MODE == 3
#include <dcgp/algorithms/es4cgp.hpp>
#include <dcgp/algorithms/gd4cgp.hpp>
#include <dcgp/algorithms/mes4cgp.hpp>
#include <dcgp/algorithms/moes4cgp.hpp>
#include <dcgp/algorithms/momes4cgp.hpp>
#include <pagmo/algorithm.hpp>
#include <pagmo/batch_evaluators/default_bfe.hpp>
#include <pagmo/batch_evaluators/member_bfe.hpp>
#include <pagmo/batch_evaluators/thread_bfe.hpp>
#include <pagmo/bfe.hpp>
#include <pagmo/population.hpp>
PAGMO_S11N_ALGORITHM_IMPLEMENT(dcgp::es4cgp)
PAGMO_S11N_ALGORITHM_IMPLEMENT(dcgp::mes4cgp)
PAGMO_S11N_ALGORITHM_IMPLEMENT(dcgp::moes4cgp)
PAGMO_S11N_ALGORITHM_IMPLEMENT(dcgp::momes4cgp)
PAGMO_S11N_ALGORITHM_IMPLEMENT(dcgp::gd4cgp)
#endif
using namespace hc;
using SR = dcgp::symbolic_regression;
using dmat = std::vector<dvec>;
using names_t = std::vector<std::string>;

template <typename OA, typename IA, typename X>
static void roundtrip(const X &x, X &y)
{
    std::stringstream ss;
    {
        OA a(ss);
        a << x;
    }
    {
        IA a(ss);
        a >> y;
    }
}
template <typename X>
static void via(unsigned kind, const X &x, X &y)
{
    if (kind) roundtrip<boost::archive::binary_oarchive, boost::archive::binary_iarchive>(x, y);
    else roundtrip<boost::archive::text_oarchive, boost::archive::text_iarchive>(x, y);
}
struct conf {
    unsigned n, m, r, c, l, a, eph;
    names_t k;
    bool mo, ce;
    unsigned parallel;
    shape s() const { return shape(n + eph, m, r, c, l, uvec(c, a), static_cast<unsigned>(k.size())); }
    std::string str() const { return s().str() + " eph" + std::to_string(eph) + mc::str(k) + (mo ? " mo" : "") + (ce ? " CE" : "") + " par" + std::to_string(parallel); }
};
static SR make(const conf &q, unsigned seed = 5u)
{
    static const double V[] = {0.7, -0.4, 1.3, 0.3, 2.1, -1.6, 0.25, -0.9};
    dmat P, L;
    for (unsigned i = 0; i < 4u; ++i) {
        dvec p, y;
        for (unsigned j = 0; j < q.n; ++j) p.push_back(V[(i + 3u * j) % 8u]);
        if (q.ce) {
            y.assign(q.m, 0.);
            y[i % q.m] = 1.;
        } else for (unsigned j = 0; j < q.m; ++j) y.push_back(1. + 2. * p[0] + V[(3u * i + j) % 8u] * 0.25);
        P.push_back(p);
        L.push_back(y);
    }
    return SR(P, L, q.r, q.c, q.l, q.a, kernels(q.k), q.eph, q.mo, q.parallel, q.ce ? "CE" : "MSE", seed);
}
#if MODE == 3
struct setting {
    unsigned alg, gen, mut;
    double ftol;
    bool learn;
    std::string str() const
    {
        static const char *N[] = {"es4cgp", "mes4cgp", "moes4cgp", "momes4cgp", "gd4cgp"};
        return std::string(N[alg]) + (learn ? "" : "(fixed constants)") + " gen" + std::to_string(gen) + " mut" + std::to_string(mut) + " ftol" + mc::str(ftol);
    }
};
enum { PLAIN, BFE_MEMBER, BFE_THREAD, BFE_DEFAULT };
struct my_bfe {
    dvec operator()(const pagmo::problem &p, const dvec &x) const
    {
        dvec r;
        pagmo::problem c(p); // (pagmo counts the evaluations)
        for (std::size_t i = 0; i < x.size(); i += p.get_nx()) {
            auto f = c.fitness(dvec(x.begin() + static_cast<long>(i), x.begin() + static_cast<long>(i + p.get_nx())));
            r.insert(r.end(), f.begin(), f.end());
        }
        return r;
    }
    template <typename A>
    void serialize(A &, unsigned) {}
};
static void set_bfe(pagmo::algorithm &a, unsigned b)
{
    pagmo::bfe e;
    if (b == BFE_MEMBER) e = pagmo::bfe{my_bfe{}};
    if (b == BFE_THREAD) e = pagmo::bfe{pagmo::thread_bfe{}};
    if (auto *p = a.extract<dcgp::es4cgp>()) p->set_bfe(e);
    if (auto *p = a.extract<dcgp::moes4cgp>()) p->set_bfe(e);
}
static pagmo::algorithm build(const setting &s, unsigned seed, unsigned sel = 0u)
{
    switch (s.alg) {
        case 0: return pagmo::algorithm(dcgp::es4cgp(s.gen, s.mut, s.ftol, s.learn, seed));
        case 1: return pagmo::algorithm(dcgp::mes4cgp(s.gen, s.mut, s.ftol, seed));
        case 2: return pagmo::algorithm(dcgp::moes4cgp(s.gen, s.mut, s.ftol, s.learn, seed));
        case 3: return pagmo::algorithm(dcgp::momes4cgp(s.gen, s.mut, s.ftol, seed));
        default: {
            dcgp::gd4cgp g(s.gen, 0.5 + s.mut, 0.01);
            if (sel == 1u) { g.set_selection("worst"); g.set_replacement("best"); }
            if (sel == 2u) { g.set_selection("random"); g.set_replacement("worst"); g.set_random_sr_seed(seed); }
            if (sel == 3u) { g.set_selection(pagmo::population::size_type(1u)); g.set_replacement(pagmo::population::size_type(0u)); }
            return pagmo::algorithm(g);
        }
    }
}
static pagmo::population start(const conf &q, unsigned NP)
{
    pagmo::population pop{pagmo::problem(make(q)), 0u, 9u};
    shape s = q.s();
    auto B = ref::bases(s);
    for (unsigned i = 0; i < NP; ++i) {
        dvec v;
        for (unsigned j = 0; j < q.eph; ++j) v.push_back(i % 2u ? -1.5 + 0.75 * j : 0.8 - 0.35 * j);
        auto &b = B[(i + 1u) % B.size()];
        v.insert(v.end(), b.begin(), b.end());
        pop.push_back(v);
    }
    return pop;
}
static std::string finger(const pagmo::population &p)
{
    std::string s = std::to_string(p.get_problem().get_fevals()) + " evaluations ";
    for (unsigned i = 0; i < p.size(); ++i) s += mc::str(p.get_x()[i]) + mc::str(p.get_f()[i]) + " ";
    return s;
}
static unsigned long long log_fevals(const pagmo::algorithm &a, std::string &all, std::size_t &lines, double &best, std::vector<unsigned> &gens, std::vector<unsigned long long> &fe, dvec *bests = nullptr)
{
    all.clear();
    lines = 0;
    best = 0;
    gens.clear();
    fe.clear();
    auto put = [&](unsigned g, unsigned long long f, const std::string &s) { gens.push_back(g); fe.push_back(f); all += std::to_string(g) + ":" + std::to_string(f) + s + ";"; ++lines; if (bests) bests->push_back(best); };
    if (auto *p = a.extract<dcgp::es4cgp>()) for (auto &l : p->get_log()) best = std::get<2>(l), put(std::get<0>(l), std::get<1>(l), mc::str(std::get<2>(l)) + mc::str(std::get<3>(l)) + std::get<4>(l));
    if (auto *p = a.extract<dcgp::mes4cgp>()) for (auto &l : p->get_log()) best = std::get<2>(l), put(std::get<0>(l), std::get<1>(l), mc::str(std::get<2>(l)) + mc::str(std::get<3>(l)) + std::get<4>(l));
    if (auto *p = a.extract<dcgp::moes4cgp>()) for (auto &l : p->get_log()) best = std::get<2>(l), put(std::get<0>(l), std::get<1>(l), mc::str(std::get<2>(l)) + " " + std::to_string(std::get<3>(l)) + " " + mc::str(std::get<4>(l)));
    if (auto *p = a.extract<dcgp::momes4cgp>()) for (auto &l : p->get_log()) best = std::get<2>(l), put(std::get<0>(l), std::get<1>(l), mc::str(std::get<2>(l)) + " " + std::to_string(std::get<3>(l)) + " " + mc::str(std::get<4>(l)));
    if (auto *p = a.extract<dcgp::gd4cgp>()) for (auto &l : p->get_log()) best = std::get<5>(l), put(std::get<0>(l), std::get<1>(l), mc::str(std::get<3>(l)) + mc::str(std::get<4>(l)) + mc::str(std::get<5>(l)));
    return fe.empty() ? 0u : fe.back();
}
static double low(const pagmo::population &p)
{
    double b = std::numeric_limits<double>::infinity();
    for (auto &f : p.get_f()) b = std::min(b, f[0]);
    return b;
}
static unsigned verbosity(const pagmo::algorithm &a)
{
    if (auto *p = a.extract<dcgp::es4cgp>()) return p->get_verbosity();
    if (auto *p = a.extract<dcgp::mes4cgp>()) return p->get_verbosity();
    if (auto *p = a.extract<dcgp::moes4cgp>()) return p->get_verbosity();
    if (auto *p = a.extract<dcgp::momes4cgp>()) return p->get_verbosity();
    return a.extract<dcgp::gd4cgp>()->get_verbosity();
}
static unsigned seed_of(const pagmo::algorithm &a)
{
    if (auto *p = a.extract<dcgp::es4cgp>()) return p->get_seed();
    if (auto *p = a.extract<dcgp::mes4cgp>()) return p->get_seed();
    if (auto *p = a.extract<dcgp::moes4cgp>()) return p->get_seed();
    return a.extract<dcgp::momes4cgp>()->get_seed();
}
static void reproducible(const conf &q, const setting &s, unsigned NP, unsigned seed, unsigned sel)
{
    if (!mc::begin(s.str() + " " + q.str() + " np" + std::to_string(NP) + " seed" + std::to_string(seed) + " sel" + std::to_string(sel))) return;
    ++mc::rep().states;
    const auto pop = start(q, NP);
    const auto p0 = finger(pop);
    // the reference: three runs in a row with one object
    auto base = build(s, seed, sel);
    std::string want[3];
    pagmo::population pw[3] = {base.evolve(pop), {}, {}};
    pw[1] = base.evolve(pw[0]);
    pw[2] = base.evolve(pw[1]);
    for (unsigned i = 0; i < 3u; ++i) want[i] = finger(pw[i]), mc::outcome(want[i]);
    if (s.gen == 0u) mc::check(want[0] == p0 && want[2] == p0, "no-generations", [&]() { return want[0] + " expected " + p0; });
    const auto binfo = base.get_extra_info();
    auto compare = [&](const char *what, const std::string &detail, const pagmo::population &p, unsigned i) {
        ++mc::rep().transitions;
        mc::alive();
        return mc::check(finger(p) == want[i], what, [&]() { return detail + " run " + std::to_string(i + 1u) + ": " + finger(p) + " expected " + want[i]; });
    };
    auto runs = [&](const char *what, const std::string &detail, pagmo::algorithm a, unsigned first = 0u) {
        pagmo::population p = first ? pw[first - 1u] : pop;
        for (unsigned i = first; i < 3u; ++i) {
            auto r = a.evolve(p);
            if (!compare(what, detail, r, i)) return;
            p = r;
        }
    };
    runs("again", "", build(s, seed, sel));
    { auto a = build(s, seed, sel); auto b(a); b.evolve(pop); runs("copied-before", "", a); }
    { auto a = build(s, seed, sel); a.evolve(pop); auto b(a); runs("copied-after", "", b, 1u); runs("original-after", "", a, 1u); }
    if (s.alg < 4u) {
        auto a = build(s, seed + 17u, sel);
        a.evolve(pop);
        a.set_seed(seed);
        mc::check(seed_of(a) == seed && seed_of(build(s, seed)) == seed, "get_seed", []() { return std::string(); });
        runs("set_seed", "", a);
        runs("same-problem-built-again", "", build(s, seed, sel));
    }
    for (unsigned kind = 0; kind < 2u; ++kind) {
        auto a = build(s, seed, sel);
        auto b = build({(s.alg + 1u) % 5u, 1u, 1u, 0., true}, 3u);
        via(kind, a, b);
        runs("archived-before", std::to_string(kind), b);
        a.evolve(pop);
        via(kind, a, b);
        std::string x, y;
        std::size_t n;
        double best;
        std::vector<unsigned> gens;
        std::vector<unsigned long long> fe;
        mc::check(b.get_extra_info() == a.get_extra_info(), "archived-info", [&]() { return b.get_extra_info() + " instead of " + a.get_extra_info(); });
        runs("archived-after", std::to_string(kind), b, 1u);
        // a population saved and loaded in between
        pagmo::population r;
        via(kind, pw[0], r);
        runs("archived-original", std::to_string(kind), a, 1u);
        auto c = build(s, seed, sel);
        c.evolve(pop);
        if (compare("archived-population", std::to_string(kind), r, 0u)) compare("archived-population", std::to_string(kind), c.evolve(r), 1u);
    }
    if (s.alg == 0u || s.alg == 2u)
        for (unsigned b : {BFE_MEMBER, BFE_THREAD, BFE_DEFAULT}) {
            auto a = build(s, seed, sel);
            set_bfe(a, b);
            runs("bfe", std::to_string(b), a);
        }
    // verbosity, and what the log says
    std::cout.setstate(std::ios::failbit);
    for (unsigned v : {1u, 2u, 3u, 10u}) {
        if (v == 10u && s.gen < 8u) continue;
        auto a = build(s, seed, sel);
        a.set_verbosity(v);
        mc::check(verbosity(a) == v, "get_verbosity", []() { return std::string(); });
        pagmo::population p = pop;
        for (unsigned i = 0; i < 3u; ++i) {
            const auto before = p.get_problem().get_fevals();
            auto r = a.evolve(p);
            const auto made = r.get_problem().get_fevals() - before;
            compare("verbosity", std::to_string(v), r, i);
            std::string all, w, all2;
            std::size_t n, n2;
            double best, best2;
            std::vector<unsigned> gens, g2;
            std::vector<unsigned long long> fe, f2;
            dvec bests;
            log_fevals(a, all, n, best, gens, fe, &bests);
            if (s.gen) {
                if (n == 0u) w = "empty";
                for (unsigned j = 0; j + 1u < n; ++j) if (gens[j] != j * v) w = "line " + std::to_string(j) + " is of generation " + std::to_string(gens[j]);
                for (unsigned j = 0; s.alg < 4u && j < n; ++j) if (fe[j] != static_cast<unsigned long long>(gens[j]) * NP) w = "line " + std::to_string(j) + ": " + std::to_string(fe[j]) + " evaluations in " + std::to_string(gens[j]) + " generations";
                const unsigned long long done = s.alg < 4u ? made / NP : made;
                auto named = [&](unsigned g) { return std::find(gens.begin(), gens.end(), g) != gens.end(); };
                for (unsigned long long g = 0; g < done; g += v) if (!named(static_cast<unsigned>(g))) w = "no line for generation " + std::to_string(g) + " of " + std::to_string(done);
                if (s.alg < 2u || (s.alg < 4u && done == s.gen)) {
                    if (n && (gens.back() != done || n != (done + v - 1u) / v + 1u)) w = std::to_string(n) + " lines for " + std::to_string(done) + " generations";
                } else if (s.alg < 4u && (done % v == 0u) && n && gens.back() != done) w = "no line for the last generation " + std::to_string(done);
                for (auto g : gens) if (g > (s.alg < 4u ? done : s.gen)) w = "a line for generation " + std::to_string(g);
                // a line tells what a shorter evolution would have found
                for (unsigned j = 0; i == 0u && w.empty() && j < n; ++j) {
                    setting t(s);
                    t.gen = gens[j];
                    const auto short_run = build(t, seed, sel).evolve(pop);
                    if (s.alg < 4u && low(short_run) != bests[j] && !(std::isnan(bests[j]) || std::isnan(low(short_run)))) w = "line " + std::to_string(j) + ": best " + mc::str(bests[j]) + " instead of " + mc::str(low(short_run));
                    if (s.alg == 4u && sel < 1u && low(short_run) != bests[j] && std::isfinite(bests[j])) w = "line " + std::to_string(j) + ": best " + mc::str(bests[j]) + " instead of " + mc::str(low(short_run));
                    mc::rep().counters["log lines compared with shorter evolutions"]++;
                }
                if (n && s.ftol == 0. && (fe.back() != made || gens.back() > s.gen)) w = "last line: " + std::to_string(fe.back()) + " evaluations, not " + std::to_string(made);
                if (n && s.alg < 2u && (fe.back() != made || best != low(r))) w = "last line: best " + mc::str(best) + ", evaluations " + std::to_string(fe.back()) + " instead of " + mc::str(low(r)) + ", " + std::to_string(made);
                if (n && s.alg < 4u && s.alg > 1u && s.ftol == 0.) {
                    // loss, size of the non dominated front, complexity of the lowest loss model
                    auto F = r.get_f();
                    unsigned nd = 0;
                    for (auto &f : F) {
                        bool dom = false;
                        for (auto &g : F) dom = dom || (g[0] <= f[0] && g[1] <= f[1] && (g[0] < f[0] || g[1] < f[1]));
                        nd += !dom;
                    }
                    auto tail = all.substr(0, all.size() - 1u);
                    auto cut = tail.rfind(';');
                    if (cut != std::string::npos) tail = tail.substr(cut + 1u);
                    double mx = 0;
                    for (auto &f : F) mx = std::max(mx, f[1]);
                    std::string lead = std::to_string(gens.back()) + ":" + std::to_string(fe.back()) + mc::str(low(r)) + " " + std::to_string(nd) + " ";
                    bool ok = tail.compare(0, lead.size(), lead) == 0, cm = false;
                    // (documented both as the maximum complexity and as that of the lowest loss model)
                    for (auto &f : F) cm = cm || (f[0] == low(r) && tail == lead + mc::str(f[1]));
                    if (!ok || !(cm || tail == lead + mc::str(mx))) w = "last line '" + tail + "' expected '" + lead + "'";
                }
                mc::check(w.empty(), "log", [&]() { return "verbosity " + std::to_string(v) + " run " + std::to_string(i + 1u) + ": " + w + " in " + all; });
                // the log is archived, and copied
                pagmo::algorithm b = build({(s.alg + 2u) % 5u, 1u, 1u, 0., true}, 3u), c(a);
                via(v % 2u, a, b);
                log_fevals(b, all2, n2, best2, g2, f2);
                mc::check(all2 == all && verbosity(b) == v, "archived-log", [&]() { return all2 + " expected " + all; });
                log_fevals(c, all2, n2, best2, g2, f2);
                mc::check(all2 == all, "copied-log", [&]() { return all2 + " expected " + all; });
                if (i == 1u) {
                    a.set_verbosity(0u);
                    pagmo::algorithm d(a);
                    d.evolve(r);
                    log_fevals(d, all2, n2, best2, g2, f2);
                    mc::check(n2 == 0u, "silent-log", [&]() { return all2; });
                    a.set_verbosity(v);
                }
            }
            p = r;
        }
    }
    std::cout.clear();
    mc::check(finger(pop) == p0, "input-population", []() { return std::string(); });
    mc::check(!base.get_name().empty() && binfo.find(std::to_string(s.gen)) != std::string::npos, "info", [&]() { return binfo; });
    ++mc::rep().traces;
}
static void body()
{
    const bool T = mc::rep().thorough;
    for (unsigned seed = 0; seed < (T ? 12u : 2u); ++seed)
        for (unsigned gen : {0u, 1u, 4u, 7u})
            for (unsigned alg = 0; alg < 5u; ++alg)
                for (double ftol : {0., 1.5})
                    for (unsigned NP : {2u, 5u})
                        for (bool learn : {true, false}) {
                            if (!learn && alg != 0u && alg != 2u) continue;
                            if (alg == 4u && ftol) continue;
                            const bool mo = alg == 2u || alg == 3u;
                            std::vector<conf> Q{{1u, 1u, 1u, 3u, 3u, 2u, 2u, {"sum", "mul", "diff"}, mo, false, 0u},
                                                {2u, 2u, 2u, 2u, 1u, 3u, 1u, {"mul", "sin", "pdiv", "sum"}, mo, true, 2u}};
                            if (T) Q.push_back({1u, 1u, 2u, 3u, 4u, 2u, 3u, {"div", "mul", "sum"}, mo, false, 4u});
                            for (auto &q : Q)
                                for (unsigned sel = 0; sel < (alg == 4u ? 4u : 1u); ++sel) reproducible(q, {alg, gen, 1u + seed % 3u, ftol, learn}, NP, seed, sel);
                        }
    // many individuals, generations, mutations and constants
    for (unsigned alg = 0; alg < 5u; ++alg) {
        const bool mo = alg == 2u || alg == 3u;
        for (unsigned seed : {3u, 4000000000u}) {
            reproducible({1u, 1u, 2u, 6u, 3u, 2u, 11u, {"sum", "mul", "diff"}, mo, false, 0u}, {alg, T ? 40u : 11u, 30u, 0., true}, 23u, seed, alg == 4u ? 2u : 0u);
            reproducible({1u, 1u, 1u, 4u, 4u, 2u, 1u, {"sum", "mul"}, mo, false, 0u}, {alg, T ? 130u : 54u, 3u, 0., true}, 4u, seed, 0u);
        }
        reproducible({2u, 12u, 3u, 3u, 2u, 3u, 2u, {"sum", "sin", "diff"}, mo, true, 2u}, {alg, 3u, 100u, 0., true}, 12u, 1u, 0u);
    }
}
#else
// ---------------------------------------------------------------- S04
template <typename T>
struct scale {
    double k = 1.;
    std::vector<T> operator()(const std::vector<T> &x, std::function<std::vector<T>(const std::vector<T> &)> g) const
    {
        auto v = g(x);
        for (auto &q : v) q = x[0] * q + T(k);
        return v;
    }
    template <typename A>
    void serialize(A &a, unsigned)
    {
        a &k;
    }
};
using gv = audi::gdual_v;
DCGP_S11N_FUNCTION_EXPORT(s04_scale_d, scale<double>, std::vector<double>, const std::vector<double> &, std::function<std::vector<double>(const std::vector<double> &)>)
DCGP_S11N_FUNCTION_EXPORT(s04_scale_g, scale<gv>, std::vector<gv>, const std::vector<gv> &, std::function<std::vector<gv>(const std::vector<gv> &)>)
static std::vector<dvec> vectors(const conf &q)
{
    std::vector<dvec> r;
    unsigned i = 0;
    for (auto &b : ref::bases(q.s())) {
        dvec v;
        for (unsigned j = 0; j < q.eph; ++j) v.push_back(i % 2u ? -1.5 + 0.75 * j : 0.8 - 0.35 * j);
        v.insert(v.end(), b.begin(), b.end());
        r.push_back(v);
        ++i;
    }
    return r;
}
static std::string pg(const dvec &v)
{
    std::string s;
    for (double d : v) s += std::isnan(d) ? "nan," : mc::str(d) + ",";
    return s;
}
// the answers of a problem: everything that can be asked
static std::string answers(const SR &p, const conf &q)
{
    std::string s = std::to_string(p.get_nobj()) + " " + std::to_string(p.get_nix()) + mc::str(p.get_bounds().first) + mc::str(p.get_bounds().second) + p.get_name() + p.get_extra_info() + std::to_string(static_cast<int>(p.get_thread_safety())) + std::to_string(p.gradient_sparsity().size()) + std::to_string(p.hessians_sparsity()[0].size());
    for (auto &x : vectors(q)) {
        s += "\n" + pg(p.fitness(x)) + " " + pg(p.gradient(x)) + " ";
        for (auto &h : p.hessians(x)) s += pg(h) + " ";
        s += p.pretty(x) + p.prettier(x) + pg(p.predict(dvec(q.n, 0.37), x));
        for (auto &y : p.predict(dmat{dvec(q.n, 0.5), dvec(q.n, -1.)}, x)) s += pg(y);
        s += pg(p.fitness(x));
    }
    // the future of the inner expression
    auto e = p.get_cgp();
    for (unsigned i = 0; i < 4u; ++i) {
        e.mutate_random(2u);
        s += mc::str(e.get());
    }
    return s + mc::str(p.get_cgp().get_eph_val());
}
struct op {
    std::string name;
    std::function<void(SR &, const std::vector<dvec> &)> run;
};
static std::vector<op> ops()
{
    return {{"fitness", [](SR &p, const std::vector<dvec> &X) { p.fitness(X[1]); }},
            {"fitness2", [](SR &p, const std::vector<dvec> &X) { p.fitness(X[2]); }},
            {"gradient", [](SR &p, const std::vector<dvec> &X) { p.gradient(X[1]); }},
            {"hessians", [](SR &p, const std::vector<dvec> &X) { p.hessians(X[2]); }},
            {"correct", [](SR &p, const std::vector<dvec> &) { p.set_phenotype_correction(scale<double>{2.}, scale<gv>{2.}); }},
            {"uncorrect", [](SR &p, const std::vector<dvec> &) { p.unset_phenotype_correction(); }},
            {"predict", [](SR &p, const std::vector<dvec> &X) { p.predict(dvec(p.get_cgp().get_n() - p.get_cgp().get_eph_val().size(), 0.2), X[0]); }}};
}
static void restored(const conf &q, unsigned kind, unsigned a)
{
    auto O = ops();
    const unsigned N = static_cast<unsigned>(O.size());
    if (!mc::begin(std::string(kind ? "binary " : "text ") + q.str() + " " + (a < N ? O[a].name : "fresh"))) return;
    const auto X = vectors(q);
    conf other{1u, 1u, 1u, 1u, 1u, 2u, 0u, {"sum"}, true, false, 0u};
    for (unsigned b = 0; b <= N; ++b)
        for (unsigned seed : {0u, 7u}) {
            if (a == N && b < N) continue;
            SR p = make(q, seed);
            if (a < N) O[a].run(p, X);
            if (b < N) O[b].run(p, X);
            ++mc::rep().states;
            const SR twin(p);
            const auto before = answers(SR(p), q);
            for (unsigned t = 0; t < 3u; ++t) {
                mc::alive();
                SR r;
                if (t == 1u) r = make(other);
                if (t == 2u) { r = make(q, 3u); r.set_phenotype_correction(scale<double>{-1.}, scale<gv>{-1.}); r.gradient(X[1]); }
                auto oc = mc::outcome_of([&]() { via(kind, p, r); });
                auto where = [&]() { return (a < N ? O[a].name : "") + " " + (b < N ? O[b].name : "") + " seed" + std::to_string(seed) + " into " + std::to_string(t) + " " + oc; };
                // futures: one more operation, on the original's twin and the restored one
                for (unsigned f = 0; f <= N; ++f) {
                    SR x(twin), y(r);
                    if (f < N) O[f].run(x, X), O[f].run(y, X);
                    auto u = answers(x, q), v = answers(y, q);
                    mc::check(oc.empty() && u == v, "restored", [&]() { return where() + " then " + (f < N ? O[f].name : "nothing") + "\n" + v + "\nexpected\n" + u; });
                    ++mc::rep().transitions;
                }
                // as a pagmo problem
                pagmo::problem P{p}, R;
                via(kind, P, R);
                mc::check(R.is<SR>() && answers(*R.extract<SR>(), q) == before && R.get_nobj() == P.get_nobj() && R.get_nix() == P.get_nix() && R.get_thread_safety() == P.get_thread_safety() && R.get_fevals() == P.get_fevals(), "restored-problem", where);
                auto f1 = R.fitness(X[1]), f2 = P.fitness(X[1]);
                mc::check(pg(f1) == pg(f2), "restored-problem", where);
                ++mc::rep().traces;
            }
            mc::check(answers(SR(p), q) == before, "saving-changes", []() { return std::string(); });
        }
}
static void body()
{
    std::vector<conf> Q{{1u, 1u, 1u, 3u, 3u, 2u, 2u, {"sum", "mul", "diff"}, false, false, 0u},
                        {2u, 2u, 2u, 2u, 1u, 3u, 1u, {"mul", "sin", "pdiv", "sum"}, true, true, 2u},
                        {1u, 1u, 1u, 2u, 3u, 2u, 0u, {"div", "sum"}, true, false, 0u}};
    Q.push_back({1u, 1u, 1u, 2u, 2u, 2u, 11u, {"sum", "mul"}, false, false, 0u});
    Q.push_back({4u, 12u, 2u, 9u, 3u, 3u, 1u, {"sum", "mul", "sin", "diff", "div"}, false, true, 2u});
    if (mc::rep().thorough) {
        Q.push_back({3u, 2u, 3u, 3u, 2u, 2u, 3u, {"sum", "mul", "div", "sin"}, false, true, 4u});
    }
    for (auto &q : Q)
        for (unsigned kind : {0u, 1u})
            for (unsigned a = 0; a <= ops().size(); ++a) restored(q, kind, a);
    if (mc::begin("default constructed")) {
        // a default constructed problem can be saved, and loaded over any other
        for (unsigned kind : {0u, 1u}) {
            SR p, r = make(Q[1]);
            auto oc = mc::outcome_of([&]() { via(kind, p, r); });
            mc::check(oc.empty() && r.get_nobj() == p.get_nobj() && r.get_nix() == p.get_nix() && r.get_extra_info() == p.get_extra_info(), "default", [&]() { return oc; });
        }
        ++mc::rep().traces;
    }
}
#endif
int main(int argc, char **argv)
{
    return mc::main(argc, argv, body);
}
