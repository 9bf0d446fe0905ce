// A03: one epoch of sgd is gradient descent over consecutive batches in some order of the data, the same whatever the number
// of parallel parts; refused calls change nothing. MODE 1: sequential semantics; MODE 2: all schedules of the parallel parts.
#include "common.hpp"
#include "net.hpp"
#include <dcgp/expression_ann.hpp>
#include <random>
#if MODE == 2
#include "sched.hpp"
#endif
using namespace hc;
using A = dcgp::expression_ann;
using dmat = std::vector<dvec>;
using ref::net;
using lt = expression<double>::loss_type;

static dvec weights(unsigned k, unsigned n)
{
    dvec w;
    for (unsigned i = 0; i < n; ++i) w.push_back(k == 0u ? 1. : 0.5 + 0.25 * (i % 7u) - 0.75 * (i % 3u));
    return w;
}
static dvec biases(unsigned k, unsigned n)
{
    dvec b;
    for (unsigned i = 0; i < n; ++i) b.push_back(k == 0u ? 0. : 0.3 - 0.2 * (i % 5u));
    return b;
}
static void data(unsigned k, unsigned n, unsigned m, unsigned size, bool CE, dmat &P, dmat &L)
{
    P.clear();
    L.clear();
    for (unsigned i = 0; i < size; ++i) {
        dvec p, y;
        for (unsigned j = 0; j < n; ++j) p.push_back(-0.9 + 0.31 * i + 0.17 * j + 0.05 * k); // all points differ
        if (CE) {
            y.assign(m, 0.);
            y[(i + k) % m] = 1.;
        } else {
            for (unsigned j = 0; j < m; ++j) y.push_back(0.6 - 0.23 * i + 0.4 * j);
        }
        P.push_back(p);
        L.push_back(y);
    }
}
static std::string names(const std::vector<std::string> &k)
{
    std::string s;
    for (auto &q : k) s += q + ",";
    return s;
}
struct world {
    A e;
    net t;
};
static world make(const shape &s, const std::vector<std::string> &ks, const uvec &x, unsigned k)
{
    world w{A(s.n, s.m, s.r, s.c, s.l, s.arity, kernels(ks), 1u), {s, ks, x, weights(k, ref::n_weights(s)), biases(k, s.r * s.c)}};
    w.e.set(x);
    w.e.set_weights(w.t.w);
    w.e.set_biases(w.t.b);
    return w;
}
#if MODE == 1
// the seeds std::random_device hands out (sgd shuffles with them)
static unsigned next_seed = 0;
std::random_device::result_type std::random_device::_M_getval()
{
    return next_seed++;
}
static void epochs(const shape &s, const std::vector<std::string> &ks, const uvec &x, unsigned N, unsigned k)
{
    for (unsigned ce = 0; ce < 2u; ++ce)
        for (double lr : {0.04, 0.3}) {
            dmat P, L;
            data(k, s.n, s.m, N, ce, P, L);
            for (unsigned bs : {1u, 2u, 3u, 4u, 5u, 6u, 7u, 100u, 4000000000u}) {
                if (bs < 10u && bs > N + 1u) continue;
                // batches of the epoch
                std::vector<unsigned> sizes;
                for (unsigned at = 0; at < N;) {
                    unsigned q = std::min(bs, N - at);
                    sizes.push_back(q);
                    at += q;
                }
                for (unsigned par = 0; par <= N + 1u; ++par) {
                    bool ok = true;
                    for (auto q : sizes) ok = ok && (par == 0u || q % par == 0u);
                    auto w = make(s, ks, x, k);
                    auto p = P, l = L;
                    const std::string name = ce ? "CE" : "MSE";
                    double got = 0;
                    auto o = mc::outcome_of([&]() { got = w.e.sgd(p, l, lr, bs, name, par, false); });
                    ++mc::rep().transitions;
                    auto where = [&]() { return s.str() + " " + mc::str(x) + " " + name + " lr " + mc::str(lr) + " N " + std::to_string(N) + " batch " + std::to_string(bs) + " parts " + std::to_string(par) + " k " + std::to_string(k) + ": "; };
                    mc::check(p == P && l == L, "reordered", [&]() { return where() + "data changed without shuffle"; });
                    mc::check(uvec(w.e.get().begin(), w.e.get().end()) == x, "chromosome", where);
                    if (!ok) {
                        mc::check(o == "invalid_argument", "parts", [&]() { return where() + "'" + o + "'"; });
                        mc::check(dvec(w.e.get_weights()) == w.t.w && dvec(w.e.get_biases()) == w.t.b, "refused-changed", where);
                        continue;
                    }
                    net t(w.t);
                    const double want = t.epoch(P, L, lr, bs, ce);
                    bool tame = !t.kink; // diverging trainings amplify rounding errors
                    for (double q : t.w) tame = tame && std::abs(q) < 20.;
                    for (double q : t.b) tame = tame && std::abs(q) < 20.;
                    mc::rep().counters[tame ? "epochs compared" : "epochs skipped (kink or divergence)"] += 1;
                    if (!tame) continue;
                    mc::check(o.empty() && mc::close(got, want, 1e-8, 1e-9), "return", [&]() { return where() + o + " " + mc::str(got) + " instead of " + mc::str(want); });
                    mc::check(mc::close(w.e.get_weights(), t.w, 1e-8, 1e-9) && mc::close(w.e.get_biases(), t.b, 1e-8, 1e-9), "weights", [&]() { return where() + mc::str(w.e.get_weights()) + mc::str(w.e.get_biases()) + " instead of " + mc::str(t.w) + mc::str(t.b); });
                }
            }
        }
    ++mc::rep().traces;
}
// long data sets
static void large(const shape &s, const std::vector<std::string> &ks)
{
    const auto x = ref::chain(s);
    for (unsigned N : {33u, 100u, 1030u})
        for (unsigned ce = 0; ce < 2u; ++ce)
            for (unsigned bs : {1u, 7u, 10u, 32u, 33u, 50u, 64u, 99u, 100u, 101u, 1000u, 1024u, 4294967295u}) {
                if (N > 1000u && bs < 32u) continue;
                if (!mc::begin("large " + s.str() + " N " + std::to_string(N) + (ce ? " CE " : " MSE ") + std::to_string(bs))) continue;
                dmat P, L;
                data(1u, s.n, s.m, N, ce, P, L);
                for (auto &p : P)
                    for (auto &v : p) v = std::sin(3. * v);
                for (auto &p : L)
                    for (auto &v : p) v = ce ? v : std::cos(2. * v);
                for (unsigned par : {0u, 1u, 2u, 5u, 10u, 33u, 50u}) {
                    bool ok = true;
                    for (unsigned at = 0; at < N;) {
                        const unsigned q = std::min(bs, N - at);
                        ok = ok && (par == 0u || q % par == 0u);
                        at += q;
                    }
                    auto w = make(s, ks, x, 1u);
                    for (auto &v : w.t.w) v *= 0.4;
                    w.e.set_weights(w.t.w);
                    auto p = P, l = L;
                    double got = 0;
                    auto o = mc::outcome_of([&]() { got = w.e.sgd(p, l, 0.02, bs, ce ? "CE" : "MSE", par, false); });
                    ++mc::rep().transitions;
                    mc::alive();
                    auto where = [&]() { return std::to_string(par) + " parts: '" + o + "' " + mc::str(got); };
                    if (!ok) {
                        mc::check(o == "invalid_argument" && dvec(w.e.get_weights()) == w.t.w && dvec(w.e.get_biases()) == w.t.b, "parts", where);
                        continue;
                    }
                    net t(w.t);
                    const double want = t.epoch(P, L, 0.02, bs, ce);
                    mc::check(o.empty() && p == P && l == L && mc::close(got, want, 1e-7, 1e-8), "return", [&]() { return where() + " instead of " + mc::str(want); });
                    mc::check(mc::close(w.e.get_weights(), t.w, 1e-6, 1e-7) && mc::close(w.e.get_biases(), t.b, 1e-6, 1e-7), "weights", where);
                    // in some order: the points and labels stay together, and the result is that of the order
                    auto v = make(s, ks, x, 1u);
                    v.e.set_weights(w.t.w);
                    p = P, l = L;
                    got = v.e.sgd(p, l, 0.02, bs, ce ? "CE" : "MSE", par, true);
                    std::map<dvec, dvec> lab;
                    for (unsigned i = 0; i < N; ++i) lab[P[i]] = L[i];
                    std::set<dvec> seen;
                    bool pairs = p.size() == N && l.size() == N;
                    for (unsigned i = 0; i < N && pairs; ++i) pairs = lab.count(p[i]) && lab[p[i]] == l[i] && seen.insert(p[i]).second;
                    mc::check(pairs, "pairs", where);
                    mc::check(p != P, "order", where);
                    net u(w.t);
                    const double want2 = u.epoch(p, l, 0.02, bs, ce);
                    mc::check(mc::close(got, want2, 1e-7, 1e-8) && mc::close(v.e.get_weights(), u.w, 1e-6, 1e-7) && mc::close(v.e.get_biases(), u.b, 1e-6, 1e-7), "shuffled-epoch", where);
                }
                ++mc::rep().states;
                ++mc::rep().traces;
            }
}
// all orders a shuffle can produce: seeds are handed out one after the other until every permutation was seen
static void shuffles(const shape &s, const std::vector<std::string> &ks, const uvec &x, unsigned N, unsigned bs)
{
    if (!mc::begin("shuffle " + s.str() + " N " + std::to_string(N) + " batch " + std::to_string(bs))) return;
    dmat P, L;
    data(1u, s.n, s.m, N, false, P, L);
    std::set<std::vector<unsigned>> seen;
    std::size_t fact = 1;
    for (unsigned i = 2; i <= N; ++i) fact *= i;
    next_seed = 1;
    for (unsigned run = 0; run < 40u * fact && seen.size() < fact; ++run) {
        auto w = make(s, ks, x, 1u);
        auto p = P, l = L;
        const double got = run % 2u ? w.e.sgd(p, l, 0.1, bs, "MSE", 0u, true) : w.e.sgd(p, l, 0.1, bs, "MSE");
        std::vector<unsigned> perm;
        for (auto &q : p) perm.push_back(static_cast<unsigned>(std::find(P.begin(), P.end(), q) - P.begin()));
        auto sorted = perm;
        std::sort(sorted.begin(), sorted.end());
        bool is = sorted.size() == N;
        for (unsigned i = 0; i < sorted.size(); ++i) is = is && sorted[i] == i;
        if (!mc::check(is, "permutation", [&]() { return mc::str(perm); })) break;
        bool pairs = l.size() == N;
        for (unsigned i = 0; i < N && pairs; ++i) pairs = l[i] == L[perm[i]];
        mc::check(pairs, "pairs", [&]() { return "order " + mc::str(perm) + ": points and labels no longer belong together"; });
        net t(w.t);
        const double want = t.epoch(p, l, 0.1, bs, false);
        mc::check(mc::close(got, want, 1e-8, 1e-9) && mc::close(w.e.get_weights(), t.w, 1e-8, 1e-9) && mc::close(w.e.get_biases(), t.b, 1e-8, 1e-9), "shuffled-epoch", [&]() { return "order " + mc::str(perm) + ": " + mc::str(got) + " instead of " + mc::str(want); });
        seen.insert(perm);
        ++mc::rep().transitions;
        mc::alive();
    }
    mc::check(N < 2u || seen.size() > 1u, "order", [&]() { return "the data are never reordered"; });
    mc::rep().counters["orders of the data explored"] += seen.size();
    ++mc::rep().states;
    ++mc::rep().traces;
}
static void refusals(const shape &s, const std::vector<std::string> &ks, const uvec &x)
{
    if (!mc::begin("refused " + s.str())) return;
    dmat P, L;
    data(1u, s.n, s.m, 3u, false, P, L);
    const double inf = std::numeric_limits<double>::infinity(), nan = std::numeric_limits<double>::quiet_NaN();
    for (unsigned par = 0; par < 2u; ++par)
        for (unsigned sh = 0; sh < 2u; ++sh) {
            auto bad = [&](const char *what, dmat p, dmat l, double lr, unsigned bs, const std::string &name) {
                auto w = make(s, ks, x, 1u);
                const auto p0 = p, l0 = l;
                auto o = mc::outcome_of([&]() { w.e.sgd(p, l, lr, bs, name, par, sh); });
                mc::check(o == "invalid_argument", "refused", [&]() { return std::string(what) + ": '" + o + "'"; });
                mc::check(dvec(w.e.get_weights()) == w.t.w && dvec(w.e.get_biases()) == w.t.b && p == p0 && l == l0, "refused-changed", [&]() { return std::string(what); });
                ++mc::rep().transitions;
            };
            bad("no data", {}, {}, 0.1, 1u, "MSE");
            bad("more points", P, dmat(L.begin(), L.begin() + 2), 0.1, 1u, "MSE");
            bad("more labels", dmat(P.begin(), P.begin() + 2), L, 0.1, 1u, "CE");
            for (double lr : {0., -0., -0.1, -1e-300, -inf, nan}) bad("learning rate", P, L, lr, 2u, "MSE");
            for (auto &n : {"", "mse", "ce", "MSE ", "RMSE", "C", "CEE"}) bad("loss name", P, L, 0.1, 2u, n);
            bad("batch size 0", P, L, 0.1, 0u, "MSE");
        }
    ++mc::rep().states;
}
#else
static void account(const sched::result &r)
{
    mc::rep().states += r.runs;
    mc::rep().transitions += r.points;
    mc::rep().traces += r.runs;
    mc::rep().counters["accesses checked for races"] += r.accesses;
    mc::rep().counters["schedules"] += r.runs;
    if (!r.complete) mc::rep().exhaustive = false;
    for (auto &q : r.races) mc::fail("data-race", q);
}
static void parallel(const shape &s, const std::vector<std::string> &ks, const uvec &x, unsigned par, unsigned per, bool ce, unsigned bound)
{
    const unsigned N = par * per;
    const std::string name = ce ? "CE" : "MSE";
    dmat P, L;
    data(1u, s.n, s.m, N, ce, P, L);
    if (mc::begin("d_loss " + s.str() + " " + name + " parts " + std::to_string(par) + " of " + std::to_string(per))) {
        auto w = make(s, ks, x, 1u);
        dvec g;
        const double want = w.t.batch(P, L, ce, g);
        std::tuple<double, dvec, dvec> got;
        auto r = sched::explore(
            bound, 20000, [&]() { got = w.e.d_loss(P, L, ce ? lt::CE : lt::MSE, par); },
            [&](const std::string &q) {
                dvec a(std::get<1>(got));
                a.insert(a.end(), std::get<2>(got).begin(), std::get<2>(got).end());
                mc::check(mc::close(std::get<0>(got), want, 1e-9, 1e-10) && mc::close(a, g, 1e-8, 1e-9), "d_loss", [&]() { return "schedule " + q + ": " + mc::str(std::get<0>(got)) + mc::str(a) + " instead of " + mc::str(want) + mc::str(g); });
                mc::alive();
                if (mc::rep().samples.size() < 3u) mc::sample(mc::rep().cur + " schedule " + q + " -> " + mc::str(std::get<0>(got)));
            });
        account(r);
        for (unsigned bad = 0; bad < N; ++bad) {
            auto P2 = P;
            P2[bad].push_back(1.);
            std::string o;
            auto q = sched::explore(
                1u, 5000, [&]() { o = mc::outcome_of([&]() { w.e.d_loss(P2, L, ce ? lt::CE : lt::MSE, par); }); },
                [&](const std::string &z) {
                    mc::check(o == "invalid_argument", "failure", [&]() { return "bad element " + std::to_string(bad) + " schedule " + z + ": '" + o + "'"; });
                    mc::alive();
                });
            account(q);
        }
    }
    if (mc::begin("sgd " + s.str() + " " + name + " parts " + std::to_string(par) + " of " + std::to_string(per))) {
        dmat P3(P), L3(L);
        P3.insert(P3.end(), P.rbegin(), P.rend()); // two batches
        L3.insert(L3.end(), L.begin(), L.end());
        auto w = make(s, ks, x, 1u);
        net t(w.t);
        const double want = t.epoch(P3, L3, 0.25, N, ce);
        double got = 0;
        dvec gw, gb;
        auto r = sched::explore(
            std::min(bound, 2u), 20000,
            [&]() {
                auto v = make(s, ks, x, 1u);
                auto p = P3, l = L3;
                got = v.e.sgd(p, l, 0.25, N, name, par, false);
                gw = v.e.get_weights();
                gb = v.e.get_biases();
            },
            [&](const std::string &q) {
                mc::check(mc::close(got, want, 1e-9, 1e-10) && mc::close(gw, t.w, 1e-8, 1e-9) && mc::close(gb, t.b, 1e-8, 1e-9), "sgd", [&]() { return "schedule " + q + ": " + mc::str(got) + mc::str(gw) + mc::str(gb) + " instead of " + mc::str(want) + mc::str(t.w) + mc::str(t.b); });
                mc::alive();
            });
        account(r);
    }
}
// two threads training their own copies, or computing gradients of one shared network
static void threads(const shape &s, const std::vector<std::string> &ks, const uvec &x, unsigned bound)
{
    dmat P, L;
    data(1u, s.n, s.m, 2u, false, P, L);
    for (unsigned par = 0; par <= 2u; par += 2u) {
        if (!mc::begin("two trainings " + s.str() + " parts " + std::to_string(par))) continue;
        auto w = make(s, ks, x, 1u);
        net t(w.t);
        t.epoch(P, L, 0.25, 2u, false);
        dvec got[2];
        auto r = sched::explore(
            par ? 1u : bound, 20000,
            [&]() {
                std::vector<A> v{w.e, w.e};
                std::vector<int> id;
                for (unsigned i = 0; i < 2u; ++i) id.push_back(sched::spawn([&, i]() { auto p = P, l = L; v[i].sgd(p, l, 0.25, 2u, "MSE", par, false); }));
                for (auto i : id) sched::join(i);
                for (unsigned i = 0; i < 2u; ++i) got[i] = v[i].get_weights();
            },
            [&](const std::string &q) {
                for (unsigned i = 0; i < 2u; ++i) mc::check(mc::close(got[i], t.w, 1e-8, 1e-9), "two-trainings", [&]() { return "schedule " + q; });
                mc::alive();
            });
        account(r);
    }
    if (mc::begin("shared gradients " + s.str())) {
        auto w = make(s, ks, x, 1u);
        dvec g;
        net t(w.t);
        t.batch(P, L, false, g);
        std::tuple<double, dvec, dvec> got[2];
        auto r = sched::explore(
            bound, 20000,
            [&]() {
                std::vector<int> id;
                for (unsigned i = 0; i < 2u; ++i) id.push_back(sched::spawn([&, i]() { got[i] = w.e.d_loss(P, L, lt::MSE, 0u); }));
                for (auto i : id) sched::join(i);
            },
            [&](const std::string &q) {
                for (unsigned i = 0; i < 2u; ++i) mc::check(mc::close(std::get<1>(got[i]), dvec(g.begin(), g.begin() + static_cast<long>(t.w.size())), 1e-8, 1e-9), "shared-gradients", [&]() { return "schedule " + q; });
                mc::alive();
            });
        account(r);
    }
}
#endif
int main(int argc, char **argv)
{
    return mc::main(argc, argv, []() {
        const bool th = mc::rep().thorough;
#if MODE == 1
        const std::vector<std::vector<std::string>> KS{{"tanh", "sig"}, {"ISRU", "sum"}, {"sin_nu", "gaussian_nu"}, {"ELU", "inv_sum"}, {"cos_nu", "ReLu"}, {"abs", "tanh"}};
        for (auto &s : {shape{1, 1, 1, 1, 1, {1}, 2}, shape{2, 1, 1, 2, 2, {2, 1}, 2}, shape{1, 2, 2, 1, 1, {2}, 2}, shape{2, 2, 2, 2, 3, {2, 1}, 2}, shape{1, 2, 1, 3, 2, {1, 3, 2}, 2}})
            for (std::size_t t = 0; t < KS.size(); ++t) {
                unsigned c = 0;
                auto one = [&](const uvec &x) {
                    for (unsigned N = 1; N <= (th ? 7u : 5u); ++N) {
                        if (c++ % (th ? 1u : 3u)) continue;
                        if (!mc::begin(s.str() + " " + names(KS[t]) + " " + mc::str(x) + " N " + std::to_string(N))) continue;
                        for (unsigned k = 0; k < 2u; ++k) epochs(s, KS[t], x, N, k);
                        ++mc::rep().states;
                    }
                };
                if (!ref::all_chromosomes(s, th ? 4000u : 200u, one)) {
                    for (auto &b : ref::bases(s)) ref::near_chromosomes(s, b, 1u, one);
                    mc::rep().exhaustive = false;
                }
            }
        for (auto &s : {shape{1, 1, 1, 1, 1, {1}, 2}, shape{2, 2, 2, 2, 3, {2, 1}, 2}})
            for (unsigned N = 1; N <= (th ? 6u : 5u); ++N)
                for (unsigned bs = 1; bs <= N + 1u; ++bs) shuffles(s, KS[0], ref::bases(s)[1], N, bs);
        for (auto &s : {shape(2, 1, 1, 2, 2, {2, 2}, 2), shape(12, 11, 2, 4, 5, {2, 5, 1, 3}, 2)}) large(s, KS[0]);
        for (auto &s : {shape{1, 1, 1, 1, 1, {1}, 2}, shape{2, 2, 2, 2, 3, {2, 1}, 2}}) refusals(s, KS[0], ref::bases(s)[1]);
#else
        sched::on_deadlock = [](const std::string &d) {
            mc::fail("deadlock", d);
            mc::rep().write(true);
            ::_exit(1);
        };
        for (auto &s : {shape{1, 1, 1, 1, 1, {1}, 2}, shape{2, 2, 2, 2, 3, {2, 1}, 2}}) {
            const auto x = ref::bases(s)[1];
            for (unsigned par = 1; par <= (th ? 4u : 3u); ++par)
                for (unsigned per = 1; per <= 2u; ++per)
                    for (unsigned ce = 0; ce < 2u; ++ce) parallel(s, {"tanh", "sig"}, x, par, per, ce, th ? 4u : 2u);
            threads(s, {"tanh", "sig"}, x, th ? 4u : 3u);
        }
#endif
    });
}
