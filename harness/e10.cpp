// E10: parallel evaluation of the loss equals the sequential one in every schedule, without data races or deadlocks, and
// failures inside a part propagate; const use of one expression and any use of distinct ones by several threads is race-free.
#include "common.hpp"
#include "sched.hpp"
#include <dcgp/expression_ann.hpp>
#include <dcgp/expression_weighted.hpp>
using namespace hc;
using dcgp::expression_ann;
using dcgp::expression_weighted;
using dmat = std::vector<dvec>;

static void account(const sched::result &r)
{
    mc::rep().states += r.runs;
    mc::rep().transitions += r.points;
    mc::rep().traces += r.runs;
    mc::rep().counters["accesses checked for races"] += r.accesses;
    mc::rep().counters["schedules"] += r.runs;
    auto &mt = mc::rep().counters["threads (max)"];
    if (r.max_threads > mt) mt = r.max_threads;
    if (!r.complete) mc::rep().exhaustive = false;
    for (auto &q : r.races) mc::fail("data-race", q);
}
// what one thread does, and what it must see
struct job {
    std::string name;
    std::function<std::string()> run;
};
static std::string text(const dvec &v) { return mc::str(v); }
static std::string text(double v) { return mc::str(v); }
template <typename T>
std::string text(const T &v) { return mc::str(v.constant_cf()); }
template <typename T>
std::string text(const std::vector<T> &v)
{
    std::string s;
    for (auto &q : v) s += text(q) + ",";
    return s;
}
static void concurrent(const std::string &d, unsigned bound, const std::function<std::vector<job>()> &make)
{
    if (!mc::begin(d)) return;
    auto *want = new std::vector<std::string>, *got = new std::vector<std::string>; // leaked: written by controlled threads
    {
        auto j = make();
        for (auto &q : j) want->push_back(q.run());
    }
    auto r = sched::explore(
        bound, 20000,
        [&]() {
            auto j = make();
            std::vector<std::string> g(j.size());
            std::vector<int> id;
            for (std::size_t t = 0; t < j.size(); ++t) id.push_back(sched::spawn([&j, &g, t]() { g[t] = j[t].run(); }));
            for (auto i : id) sched::join(i);
            *got = g;
        },
        [&](const std::string &s) {
            mc::check(*got == *want, "value", [&]() {
                std::string m = "schedule " + s;
                for (std::size_t t = 0; t < want->size(); ++t) m += " | " + (*got)[t] + " expected " + (*want)[t];
                return m;
            });
            mc::outcome(d + (got->empty() ? "" : got->front()));
            mc::alive();
        });
    account(r);
}
// parallel loss of one object; data are dyadic, so that every order of summation gives the same number
template <typename Ex, typename T>
void losses(const std::string &type, const Ex &e, unsigned nin, unsigned bound, unsigned maxpar)
{
    const bool th = mc::rep().thorough;
    for (unsigned par = 1; par <= maxpar; ++par)
        for (unsigned per = 1; per <= (th ? 3u : 2u); ++per) {
            const unsigned size = par * per;
            for (std::string name : {"MSE", "CE"}) {
                if (!mc::begin(type + " " + name + " " + std::to_string(par) + " parts of " + std::to_string(per))) continue;
                std::vector<std::vector<T>> P, L;
                for (unsigned i = 0; i < size; ++i) {
                    P.emplace_back();
                    L.emplace_back();
                    for (unsigned k = 0; k < nin; ++k) P.back().push_back(T(0.25 * ((i * 3u + k * 5u) % 7u) - 0.5));
                    for (unsigned k = 0; k < e.get_m(); ++k) L.back().push_back(T(name == "CE" ? (k == i % e.get_m() ? 1. : 0.) : 0.5 * ((i + k) % 3u)));
                }
                const auto seq = text(e.loss(P, L, name, 0u));
                const double want = std::atof(seq.c_str());
                double got = 0;
                std::string before = mc::str(e.get());
                auto r = sched::explore(
                    bound, 20000, [&]() { got = std::atof(text(e.loss(P, L, name, par)).c_str()); },
                    [&](const std::string &s) {
                        mc::check(mc::close(got, want, 1e-12, 1e-13), "parallel", [&]() { return "schedule " + s + ": " + mc::str(got) + " expected " + seq; });
                        mc::outcome(type + name + mc::str(got));
                        mc::alive();
                        if (mc::rep().samples.size() < 3u) mc::sample(mc::rep().cur + " schedule " + s + " -> " + mc::str(got));
                    });
                account(r);
                mc::check(before == mc::str(e.get()), "changed", []() { return std::string(); });
                // a failure in one part (the bad element at each position) propagates, and the object stays usable
                for (unsigned bad = 0; bad < size; ++bad) {
                    for (unsigned what = 0; what < 2u; ++what) {
                        auto P2 = P, L2 = L;
                        (what ? L2 : P2)[bad].push_back(T(1.));
                        std::string o;
                        auto q = sched::explore(
                            std::min(bound, 1u), 5000, [&]() { o = mc::outcome_of([&]() { e.loss(P2, L2, name, par); }); },
                            [&](const std::string &s) {
                                mc::check(o == "invalid_argument", "failure", [&]() { return "bad element " + std::to_string(bad) + " schedule " + s + ": '" + o + "'"; });
                                mc::alive();
                            });
                        account(q);
                        mc::check(text(e.loss(P, L, name, 0u)) == seq, "after-failure", []() { return std::string(); });
                    }
                }
            }
        }
}
template <typename Ex, typename T>
void shared(const std::string &type, const std::function<Ex()> &make, unsigned nin, unsigned bound)
{
    const std::vector<T> p(nin, T(0.5));
    const std::vector<std::string> sy{"x", "y", "z"};
    using op = std::pair<std::string, std::function<std::string(const Ex &)>>;
    std::vector<op> O{{"eval", [p](const Ex &e) { return text(e(p)); }},
                      {"symbolic", [sy, nin](const Ex &e) { std::string s; for (auto &q : e(std::vector<std::string>(sy.begin(), sy.begin() + nin))) s += q; return s; }},
                      {"loss", [p](const Ex &e) { return text(e.loss(std::vector<std::vector<T>>(2u, p), std::vector<std::vector<T>>(2u, std::vector<T>(e.get_m(), T(1.))), "MSE", 0u)); }},
                      {"active", [](const Ex &e) { return mc::str(e.get_active_nodes()) + mc::str(e.get_active_genes()) + std::to_string(e.is_active_node(0u)) + std::to_string(e.is_active_gene(1u)); }},
                      {"copy", [p](const Ex &e) { Ex c(e); c.mutate_active(2u); return mc::str(c.get()) + mc::str(e.get()); }},
                      {"print", [](const Ex &e) { return mc::str(e); }}};
    // all pairs and some triples on one shared object
    for (std::size_t a = 0; a < O.size(); ++a)
        for (std::size_t b = a; b < O.size(); ++b) {
            concurrent(type + " shared " + O[a].first + "||" + O[b].first, bound, [&]() {
                auto e = std::make_shared<Ex>(make());
                std::vector<job> j;
                for (auto i : {a, b}) j.push_back({O[i].first, [e, &O, i]() { return O[i].second(*e); }});
                return j;
            });
            concurrent(type + " shared " + O[a].first + "||" + O[b].first + "||eval", std::min(bound, 2u), [&]() {
                auto e = std::make_shared<Ex>(make());
                std::vector<job> j;
                for (auto i : {a, b, std::size_t(0)}) j.push_back({O[i].first, [e, &O, i]() { return O[i].second(*e); }});
                return j;
            });
        }
    // distinct objects, copies of one another, may be modified at the same time
    using mop = std::pair<std::string, std::function<void(Ex &)>>;
    std::vector<mop> M{{"mutate", [](Ex &e) { e.mutate_random(2u); }},
                       {"set", [](Ex &e) { e.set(std::vector<unsigned>(e.get_lb())); }},
                       {"seed", [](Ex &e) { e.seed(3); e.mutate_active(1u); }},
                       {"assign", [](Ex &e) { Ex c(e); c.mutate_random(1u); e = c; }},
                       {"new", [](Ex &e) { Ex c(e.get_n(), 1u, 1u, 1u, 1u, 1u, e.get_f()); c.mutate_random(1u); }}};
    for (std::size_t a = 0; a < M.size(); ++a)
        for (std::size_t b = a; b < M.size(); ++b)
            concurrent(type + " distinct " + M[a].first + "||" + M[b].first, bound, [&]() {
                auto e = std::make_shared<Ex>(make()), f = std::make_shared<Ex>(*e);
                std::vector<job> j;
                j.push_back({M[a].first, [e, &M, a, p]() { M[a].second(*e); return mc::str(e->get()) + text((*e)(p)); }});
                j.push_back({M[b].first, [f, &M, b, p]() { M[b].second(*f); return mc::str(f->get()) + text((*f)(p)); }});
                return j;
            });
}
int main(int argc, char **argv)
{
    return mc::main(argc, argv, []() {
        sched::on_deadlock = [](const std::string &d) {
            mc::fail("deadlock", d);
            mc::rep().write(true);
            ::_exit(1);
        };
        const bool th = mc::rep().thorough;
        const unsigned B = th ? 4u : 2u, mp = th ? 4u : 3u;
        using E = expression<double>;
        using W = expression_weighted<double>;
        using Gd = expression<audi::gdual_d>;
        using A = expression_ann;
        auto me = []() { return E(2u, 2u, 2u, 2u, 3u, 2u, kernels({"sum", "mul", "diff"}), 1u, 5u); };
        auto mw = []() { W w(2u, 2u, 2u, 2u, 3u, uvec{2u, 1u}, kernels({"sum", "mul"}), 6u); w.set_weights(dvec{0.5, 2., -1., 1., 0.25, 0.5}); return w; };
        auto ma = []() { A a(2u, 2u, 2u, 2u, 3u, uvec{2u, 1u}, kernels({"sum", "ReLu"}), 7u); a.set_weights(dvec{0.5, 2., -1., 1., 0.25, 0.5}); a.set_biases(dvec{0.5, -0.25, 1., 0.}); return a; };
        auto mg = []() { return Gd(2u, 2u, 1u, 3u, 4u, 2u, kernels<audi::gdual_d>({"sum", "mul"}), 1u, 8u); };
        losses<E, double>("expression", me(), 2u, B, mp);
        losses<W, double>("weighted", mw(), 2u, B, mp);
        losses<A, double>("ann", ma(), 2u, B, mp);
        losses<Gd, audi::gdual_d>("gdual", mg(), 2u, th ? 2u : 1u, 2u);
        {
            E e(me());
            e.set_phenotype_correction([](const dvec &x, std::function<dvec(const dvec &)> g) { auto v = g(x); for (auto &q : v) q *= x[0]; return v; });
            losses<E, double>("corrected", e, 2u, B, mp);
        }
        shared<E, double>("expression", me, 2u, B);
        shared<W, double>("weighted", mw, 2u, B);
        shared<A, double>("ann", ma, 2u, B);
        shared<E, double>("corrected", [&]() { E e(me()); e.set_phenotype_correction([](const dvec &x, std::function<dvec(const dvec &)> g) { auto v = g(x); v[0] += x[1]; return v; }); return e; }, 2u, B);
        if (th) shared<Gd, audi::gdual_d>("gdual", mg, 2u, 1u);
    });
}
