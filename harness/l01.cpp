// The evolutionary algorithms on symbolic regression problems.
// MODE 1 = L01: es4cgp, mes4cgp (single objective).  MODE 2 = L02: moes4cgp, momes4cgp (multi objective).
// MODE 4 = L04: gd4cgp.  Every draw of the random engine is enumerated (modes 1, 2); every fitness evaluation is recorded.
#include "common.hpp"
#include <dcgp/algorithms/es4cgp.hpp>
#include <dcgp/algorithms/gd4cgp.hpp>
#include <dcgp/algorithms/mes4cgp.hpp>
#include <dcgp/algorithms/moes4cgp.hpp>
#include <dcgp/algorithms/momes4cgp.hpp>
#include <dcgp/problems/symbolic_regression.hpp>
#include <pagmo/algorithm.hpp>
#include <pagmo/bfe.hpp>
#include <pagmo/population.hpp>
#include <pagmo/problem.hpp>
#include <pagmo/problems/rosenbrock.hpp>
#include <Eigen/Dense>
#include <map>
#include <set>
using namespace hc;
using SR = dcgp::symbolic_regression;
using dmat = std::vector<dvec>;
using names_t = std::vector<std::string>;

// ---------------------------------------------------------------- the problem, with every evaluation recorded
struct eval {
    dvec x, f;
};
static std::vector<eval> TR;
static bool REC = false;
struct traced {
    SR sr;
    traced() = default;
    explicit traced(const SR &s) : sr(s) {}
    dvec fitness(const dvec &x) const
    {
        auto f = sr.fitness(x);
        if (REC) TR.push_back({x, f});
        return f;
    }
    dvec gradient(const dvec &x) const { return sr.gradient(x); }
    pagmo::sparsity_pattern gradient_sparsity() const { return sr.gradient_sparsity(); }
    std::vector<dvec> hessians(const dvec &x) const { return sr.hessians(x); }
    std::vector<pagmo::sparsity_pattern> hessians_sparsity() const { return sr.hessians_sparsity(); }
    std::pair<dvec, dvec> get_bounds() const { return sr.get_bounds(); }
    dvec::size_type get_nix() const { return sr.get_nix(); }
    dvec::size_type get_nobj() const { return sr.get_nobj(); }
    template <typename A>
    void serialize(A &, unsigned) {}
};
static const SR *extract(const pagmo::problem &p)
{
    if (auto t = p.extract<traced>()) return &t->sr;
    return p.extract<SR>();
}
struct conf {
    unsigned n, m, r, c, l, a, eph;
    names_t k;
    bool mo;
    shape s() const { return shape(n + eph, m, r, c, l, uvec(c, a), static_cast<unsigned>(k.size())); }
    std::string str() const { return s().str() + " eph" + std::to_string(eph) + mc::str(k); }
};
static SR make(const conf &q)
{
    static const double V[] = {0.7, -0.4, 1.3, 0.3, 2.1, -1.6, 0.25, -0.9};
    dmat P, L;
    for (unsigned i = 0; i < 4u; ++i) {
        dvec p, y;
        for (unsigned j = 0; j < q.n; ++j) p.push_back(V[(i + 3u * j) % 8u]);
        for (unsigned j = 0; j < q.m; ++j) y.push_back(1. + 2. * p[0] + V[(3u * i + j) % 8u] * 0.25);
        P.push_back(p);
        L.push_back(y);
    }
    return SR(P, L, q.r, q.c, q.l, q.a, kernels(q.k), q.eph, q.mo, 0u, "MSE", 5u);
}
// losses compared with NaN as the worst of all (as pagmo does)
static int cmp(double a, double b)
{
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) ? (std::isnan(b) ? 0 : 1) : -1;
    return a < b ? -1 : a > b ? 1 : 0;
}
static bool bits(const dvec &a, const dvec &b) { return mc::same_bits(a, b); }
static unsigned distance(const dvec &a, const dvec &b, unsigned eph)
{
    unsigned d = 0;
    for (unsigned i = eph; i < a.size(); ++i) d += a[i] != b[i];
    return d;
}
static bool legal(const shape &s, const dvec &x, unsigned eph)
{
    if (x.size() != eph + s.size()) return false;
    uvec u;
    for (unsigned i = eph; i < x.size(); ++i) {
        if (!(x[i] >= 0. && x[i] < 1e6 && x[i] == std::floor(x[i]))) return false;
        u.push_back(static_cast<unsigned>(x[i]));
    }
    return s.valid(u);
}
// do the constants of `got` follow from those of `parent` by one Newton step for the chromosome of `got`?
static std::string newton(const conf &q, const SR &sr, const dvec &parent, const dvec &got)
{
    const unsigned E = q.eph;
    dvec at(got);
    std::copy(parent.begin(), parent.begin() + E, at.begin());
    auto h = sr.hessians(at)[0];
    auto g = sr.gradient(at);
    auto near = [](double a, double b, double tol) { return mc::close(a, b, tol, tol * 1e-2); };
    auto one = [&](unsigned k) -> std::string {
        double hk = h[k * (k + 3u) / 2u];
        double want = hk != 0. && std::isfinite(hk) && std::isfinite(g[k]) ? at[k] - g[k] / hk : at[k];
        return near(got[k], want, 1e-9) ? "" : "constant " + std::to_string(k + 1u) + " is " + mc::str(got[k]) + " after " + mc::str(at[k]) + ", a Newton step gives " + mc::str(want);
    };
    if (E == 0u) return "";
    if (E == 1u) return one(0u);
    uvec act;
    for (unsigned k = 0; k < E; ++k) {
        if (g[k] != 0.) act.push_back(k);
        else if (!(std::abs(got[k]) <= 10.) && got[k] != at[k]) return "inactive constant " + std::to_string(k + 1u) + " became " + mc::str(got[k]);
    }
    if (act.empty()) return "";
    if (act.size() == 1u) return one(act[0]);
    const auto A = static_cast<long>(act.size());
    Eigen::MatrixXd H(A, A);
    Eigen::VectorXd G(A);
    bool fin = true;
    for (long i = 0; i < A; ++i) {
        G(i) = g[act[i]];
        fin = fin && std::isfinite(G(i));
        for (long j = 0; j < A; ++j) {
            unsigned a = std::max(act[i], act[j]), b = std::min(act[i], act[j]);
            H(i, j) = h[a * (a + 1u) / 2u + b];
            fin = fin && std::isfinite(H(i, j));
        }
    }
    auto unchanged = [&]() { for (auto k : act) if (!mc::same_bits(got[k], at[k])) return false; return true; };
    if (!fin) return unchanged() ? "" : "constants moved although the derivatives are not finite";
    Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> es(H);
    double lo = es.eigenvalues()(0), hi = es.eigenvalues()(A - 1);
    if (lo > 1e-7 * hi && hi > 0.) {
        Eigen::VectorXd d = es.eigenvectors() * (es.eigenvalues().cwiseInverse().asDiagonal() * (es.eigenvectors().transpose() * G));
        for (long i = 0; i < A; ++i)
            if (!mc::close(got[act[i]], at[act[i]] - d(i), 1e-6, 1e-7 * (1. + d.norm()) * std::max(1., 1e-6 * hi / lo)))
                return "constant " + std::to_string(act[i] + 1u) + " is " + mc::str(got[act[i]]) + " after " + mc::str(at[act[i]]) + ", a Newton step gives " + mc::str(at[act[i]] - d(i));
        mc::rep().counters["multi-dimensional Newton steps compared"]++;
        return "";
    }
    // (not positive definite, or too close to call: a step or no step)
    return "";
}
// ---------------------------------------------------------------- single objective
struct par {
    unsigned alg; // 0 es, 1 es without learning the constants, 2 mes; 3 moes, 4 moes without learning, 5 momes
    unsigned gen, mut;
    double ftol;
    unsigned verb;
    std::string str() const
    {
        static const char *N[] = {"es4cgp", "es4cgp(fixed constants)", "mes4cgp", "moes4cgp", "moes4cgp(fixed constants)", "momes4cgp"};
        return std::string(N[alg]) + " gen" + std::to_string(gen) + " mut" + std::to_string(mut) + " ftol" + mc::str(ftol) + " v" + std::to_string(verb);
    }
};
struct line {
    unsigned gen;
    unsigned long long fevals;
    double best;
    dvec eph;            // single objective
    std::string formula; // single objective
    unsigned long long ndf = 0;
    double compl_ = 0;
};
static std::vector<line> LOG;
static pagmo::population run(const par &p, const pagmo::population &pop, unsigned seed = 3u)
{
    LOG.clear();
    auto one = [&](auto a) {
        a.set_verbosity(p.verb);
        auto r = a.evolve(pop);
        for (auto &l : a.get_log()) LOG.push_back({std::get<0>(l), std::get<1>(l), std::get<2>(l), std::get<3>(l), std::get<4>(l)});
        return r;
    };
    auto two = [&](auto a) {
        a.set_verbosity(p.verb);
        auto r = a.evolve(pop);
        for (auto &l : a.get_log()) LOG.push_back({std::get<0>(l), std::get<1>(l), std::get<2>(l), {}, "", std::get<3>(l), std::get<4>(l)});
        return r;
    };
    switch (p.alg) {
        case 0: return one(dcgp::es4cgp(p.gen, p.mut, p.ftol, true, seed));
        case 1: return one(dcgp::es4cgp(p.gen, p.mut, p.ftol, false, seed));
        case 2: return one(dcgp::mes4cgp(p.gen, p.mut, p.ftol, seed));
        case 3: return two(dcgp::moes4cgp(p.gen, p.mut, p.ftol, true, seed));
        case 4: return two(dcgp::moes4cgp(p.gen, p.mut, p.ftol, false, seed));
        default: return two(dcgp::momes4cgp(p.gen, p.mut, p.ftol, seed));
    }
}
static std::vector<eval> content(const pagmo::population &p)
{
    std::vector<eval> r;
    for (unsigned i = 0; i < p.size(); ++i) r.push_back({p.get_x()[i], p.get_f()[i]});
    return r;
}
static std::string show(const std::vector<eval> &v)
{
    std::string s;
    for (auto &e : v) s += mc::str(e.x) + "->" + mc::str(e.f) + " ";
    return s;
}
static bool has(const std::vector<eval> &v, const eval &e)
{
    for (auto &q : v) if (bits(q.x, e.x) && bits(q.f, e.f)) return true;
    return false;
}
// what is common to all: legal, truthful individuals that were evaluated; right number of evaluations
static std::string common(const conf &q, const SR &fresh, const par &p, const std::vector<eval> &init, const pagmo::population &fin, unsigned long long fev0)
{
    const shape s = q.s();
    const unsigned NP = static_cast<unsigned>(init.size());
    if (fin.size() != NP) return "population of " + std::to_string(fin.size());
    if (fin.get_problem().get_fevals() - fev0 != TR.size()) return "counts " + std::to_string(fin.get_problem().get_fevals() - fev0) + " evaluations, made " + std::to_string(TR.size());
    if (TR.size() % NP || TR.size() > NP * p.gen) return std::to_string(TR.size()) + " evaluations";
    for (auto &e : TR) if (!legal(s, e.x, q.eph)) return "evaluated the illegal " + mc::str(e.x);
    for (auto &e : content(fin)) {
        if (!legal(s, e.x, q.eph)) return "illegal individual " + mc::str(e.x);
        if (!has(init, e) && !has(TR, e)) return "individual neither in the initial population nor evaluated: " + mc::str(e.x) + "->" + mc::str(e.f);
        auto f = SR(fresh).fitness(e.x);
        for (unsigned i = 0; i < f.size(); ++i) if (f.size() != e.f.size() || !(mc::close(f[i], e.f[i], 1e-9, 1e-12) || (!std::isfinite(f[i]) && !std::isfinite(e.f[i])))) return "individual " + mc::str(e.x) + " carries the fitness " + mc::str(e.f) + " instead of " + mc::str(f);
    }
    return "";
}
static std::string descends(const conf &q, const SR &sr, const par &p, const dvec &parent, const dvec &x)
{
    if (distance(parent, x, q.eph) > p.mut) return std::to_string(distance(parent, x, q.eph)) + " genes differ from those of " + mc::str(parent);
    if (p.alg == 1u || p.alg == 4u) {
        for (unsigned j = 0; j < q.eph; ++j) if (!mc::same_bits(parent[j], x[j])) return "constants changed from those of " + mc::str(parent);
    }
    if (p.alg == 2u || p.alg == 5u) return newton(q, sr, parent, x);
    return "";
}
static std::string single(const conf &q, const SR &fresh, const par &p, const std::vector<eval> &init, const pagmo::population &fin, unsigned long long fev0)
{
    auto w = common(q, fresh, p, init, fin, fev0);
    if (!w.empty()) return w;
    const unsigned NP = static_cast<unsigned>(init.size()), G = static_cast<unsigned>(TR.size()) / NP;
    std::vector<eval> seen(init);
    auto best = [&]() { double b = seen[0].f[0]; for (auto &e : seen) if (cmp(e.f[0], b) < 0) b = e.f[0]; return b; };
    SR sr(fresh);
    bool nan = false;
    for (auto &e : init) nan = nan || std::isnan(e.f[0]);
    for (unsigned k = 0; k < G; ++k) {
        const double b = best();
        for (unsigned i = 0; i < NP; ++i) {
            const auto &x = TR[k * NP + i].x;
            std::string why = "no parent";
            bool ok = false;
            for (auto &e : seen)
                // (pagmo may take a NaN loss for the best of the initial population)
                if (!ok && (cmp(e.f[0], b) == 0 || nan)) {
                    why = descends(q, sr, p, e.x, x);
                    ok = why.empty();
                }
            if (!ok) return "generation " + std::to_string(k + 1u) + " evaluates " + mc::str(x) + ", which is no mutant of the best: " + why;
        }
        seen.insert(seen.end(), TR.begin() + k * NP, TR.begin() + (k + 1u) * NP);
        bool stop = cmp(best(), p.ftol) < 0;
        if (stop && k + 1u < G) return "continues beyond ftol";
        if (!stop && k + 1u == G && G < p.gen) return "stops after " + std::to_string(G) + " generations with a best of " + mc::str(best());
    }
    auto F = content(fin);
    double b = F[0].f[0];
    for (auto &e : F) if (cmp(e.f[0], b) < 0) b = e.f[0];
    if (p.verb == 0u && !LOG.empty()) return "logs with verbosity 0";
    for (auto &l : LOG) {
        if (nan) break;
        if (l.gen > G || l.fevals != static_cast<unsigned long long>(l.gen) * NP) return "log line of generation " + std::to_string(l.gen) + " with " + std::to_string(l.fevals) + " evaluations";
        double lo = init[0].f[0];
        bool model = false;
        for (unsigned i = 0; i < NP * (l.gen + 1u); ++i) if (cmp(seen[i].f[0], lo) < 0) lo = seen[i].f[0];
        if (cmp(lo, l.best) != 0) return "log line of generation " + std::to_string(l.gen) + " has the best " + mc::str(l.best) + " instead of " + mc::str(lo);
        for (unsigned i = 0; i < NP * (l.gen + 1u) && !model; ++i)
            model = cmp(seen[i].f[0], lo) == 0 && mc::same_bits(dvec(seen[i].x.begin(), seen[i].x.begin() + q.eph), l.eph) && sr.prettier(seen[i].x) == l.formula;
        if (!model) return "log line of generation " + std::to_string(l.gen) + " tells the model " + mc::str(l.eph) + " " + l.formula + ", which is none of the best found so far";
        mc::rep().counters["log lines compared with the evaluations"]++;
    }
    if (cmp(b, best()) != 0) return "the best of the population is " + mc::str(b) + ", the best found " + mc::str(best());
    for (unsigned i = 0; i < NP; ++i) if (cmp(F[i].f[0], init[i].f[0]) > 0) return "individual " + std::to_string(i) + " was replaced by a worse one";
    mc::outcome(mc::str(F[0].x) + mc::str(F[1].x));
    return "";
}
static bool dominates(const dvec &a, const dvec &b)
{
    bool strict = false;
    for (unsigned i = 0; i < a.size(); ++i) {
        int c = cmp(a[i], b[i]);
        if (c > 0) return false;
        if (c < 0) strict = true;
    }
    return strict;
}
// The specification of moes4cgp and momes4cgp is nondeterministic (any selection that discards nothing for what it dominates):
// we follow the set of all the populations the evolution may be in, generation by generation.
static std::string multi(const conf &q, const SR &fresh, const par &p, const std::vector<eval> &init, const pagmo::population &fin, unsigned long long fev0)
{
    auto w = common(q, fresh, p, init, fin, fev0);
    if (!w.empty()) return w;
    const unsigned NP = static_cast<unsigned>(init.size()), G = static_cast<unsigned>(TR.size()) / NP;
    auto F = content(fin);
    if (G == 0u)
        for (unsigned i = 0; i < NP; ++i) if (!bits(F[i].x, init[i].x) || !bits(F[i].f, init[i].f)) return "population changed without evaluations";
    SR sr(fresh);
    std::vector<eval> ind; // all the individuals met so far
    auto id = [&](const eval &e) {
        for (unsigned i = 0; i < ind.size(); ++i) if (bits(ind[i].x, e.x) && bits(ind[i].f, e.f)) return i;
        ind.push_back(e);
        return static_cast<unsigned>(ind.size() - 1u);
    };
    auto finite = [&](unsigned i) { return std::isfinite(ind[i].f[0]); };
    auto lowest = [&](const uvec &v) { double b = ind[v[0]].f[0]; for (auto i : v) if (cmp(ind[i].f[0], b) < 0) b = ind[i].f[0]; return b; };
    // does a line of the log tell this population?
    auto told = [&](const uvec &v, const line &l) {
        double lo = lowest(v), mx = 0;
        unsigned long long nd = 0;
        bool some = false;
        for (auto i : v) {
            if (!finite(i)) return true; // (pagmo's front of losses that are not finite is its own)
            bool dom = false;
            for (auto j : v) dom = dom || dominates(ind[j].f, ind[i].f);
            nd += !dom;
            mx = std::max(mx, ind[i].f[1]);
            some = some || (ind[i].f[0] == lo && ind[i].f[1] == l.compl_);
        }
        return lo == l.best && nd == l.ndf && (some || mx == l.compl_);
    };
    std::map<std::pair<unsigned, unsigned>, std::string> memo;
    auto why = [&](unsigned parent, unsigned child) -> const std::string & {
        auto it = memo.find({parent, child});
        if (it == memo.end()) it = memo.emplace(std::make_pair(parent, child), descends(q, sr, p, ind[parent].x, ind[child].x)).first;
        return it->second;
    };
    std::set<uvec> now; // sorted populations
    uvec first;
    for (auto &e : init) first.push_back(id(e));
    uvec sorted(first);
    std::sort(sorted.begin(), sorted.end());
    now.insert(sorted);
    for (unsigned k = 0; k <= G; ++k) {
        // stops as soon as a population with a loss below ftol is about to be evolved
        std::set<uvec> go;
        for (auto &v : now) if (k == p.gen || (cmp(lowest(v), p.ftol) < 0) == (k == G)) go.insert(v);
        if (go.empty()) return (k == G ? "stops after " : "continues after ") + std::to_string(k) + " generations";
        now.swap(go);
        for (auto &l : LOG) {
            if (l.gen != k) continue;
            bool ok = l.fevals == static_cast<unsigned long long>(k) * NP && p.verb > 0u;
            bool some = false;
            for (auto &v : now) some = some || told(v, l);
            if (!ok || !some) return "log line of generation " + std::to_string(k) + ": " + std::to_string(l.fevals) + " evaluations, best " + mc::str(l.best) + ", front of " + std::to_string(l.ndf) + ", complexity " + mc::str(l.compl_);
            mc::rep().counters["log lines compared with the evaluations"]++;
        }
        if (k == G) break;
        uvec mut;
        for (unsigned i = 0; i < NP; ++i) mut.push_back(id(TR[k * NP + i]));
        if (k == 0u) {
            for (unsigned i = 0; i < NP; ++i) if (!why(first[i], mut[i]).empty()) return "evaluates " + mc::str(ind[mut[i]].x) + ", which is no mutant of individual " + std::to_string(i) + ": " + why(first[i], mut[i]);
        }
        std::set<uvec> next;
        bool descended = false;
        for (auto &v : now) {
            // the individuals may sit anywhere in the population
            uvec o(v);
            bool ok = k == 0u;
            if (!ok)
                do {
                    ok = true;
                    for (unsigned i = 0; ok && i < NP; ++i) ok = why(o[i], mut[i]).empty();
                } while (!ok && std::next_permutation(o.begin(), o.end()));
            if (!ok) continue;
            descended = true;
            uvec cand(v);
            for (auto m : mut) {
                bool dup = false;
                for (auto i : v) dup = dup || bits(ind[i].f, ind[m].f);
                if (p.alg != 5u || (!dup && finite(m))) cand.push_back(m);
            }
            bool distinct = true;
            for (unsigned i = 0; i < cand.size(); ++i) {
                distinct = distinct && finite(cand[i]);
                for (unsigned j = 0; j < i; ++j) distinct = distinct && !bits(ind[cand[i]].f, ind[cand[j]].f);
            }
            for (unsigned mask = 0; mask < (1u << cand.size()); ++mask) {
                if (static_cast<unsigned>(__builtin_popcount(mask)) != NP) continue;
                uvec kept, left;
                bool bad = false;
                for (unsigned i = 0; i < cand.size(); ++i) ((mask >> i) & 1u ? kept : left).push_back(cand[i]);
                for (auto d : left) {
                    bool twin = false; // (momes4cgp takes one of the mutants with equal objectives only)
                    for (auto e : kept) twin = twin || (p.alg == 5u && bits(ind[d].f, ind[e].f));
                    for (auto e : kept) bad = bad || (!twin && dominates(ind[d].f, ind[e].f));
                }
                if (p.alg == 5u) // no two mutants with the same objectives
                    for (unsigned i = NP; i < cand.size(); ++i)
                        for (unsigned j = i + 1u; j < cand.size(); ++j) bad = bad || (((mask >> i) & 1u) && ((mask >> j) & 1u) && bits(ind[cand[i]].f, ind[cand[j]].f));
                if (distinct && cmp(lowest(kept), lowest(cand)) != 0) bad = true;
                if (bad) continue;
                std::sort(kept.begin(), kept.end());
                next.insert(kept);
            }
            if (distinct) mc::rep().counters["selections among distinct finite candidates"]++;
        }
        if (!descended) return "generation " + std::to_string(k + 1u) + " does not evaluate one mutant of each individual of any legally selected population";
        now.swap(next);
    }
    uvec f;
    for (auto &e : F) f.push_back(id(e));
    std::sort(f.begin(), f.end());
    if (!now.count(f)) return "is not a legal selection from parents and mutants";
    mc::outcome(mc::str(F[0].x) + mc::str(F[1].x));
    return "";
}
static std::vector<std::vector<dvec>> populations(const conf &q, unsigned big)
{
    shape s = q.s();
    auto B = ref::bases(s);
    std::vector<dvec> X;
    for (unsigned i = 0; i < B.size(); ++i) {
        dvec v;
        for (unsigned j = 0; j < q.eph; ++j) v.push_back(i % 2u ? -1.5 + 0.75 * j : 0.8 - 0.35 * j);
        v.insert(v.end(), B[i].begin(), B[i].end());
        X.push_back(v);
    }
    std::vector<std::vector<dvec>> r;
    for (unsigned i = 0; i < X.size(); ++i)
        for (unsigned j = 0; j < X.size(); ++j) {
            if (big || i != j || i < 2u) r.push_back({X[i], X[j]});
            if ((big || (i + j) % 3u == 0u) && i != j) r.push_back({X[i], X[j], X[(i + 1u) % X.size()]});
        }
    return r;
}
static void evolve(const conf &q, const par &p, unsigned K, unsigned depth)
{
    if (!mc::begin(p.str() + " " + q.str())) return;
    ++mc::rep().states;
    const SR fresh = make(q);
    SR sr(fresh);
    for (auto &xs : populations(q, mc::rep().thorough)) {
        REC = false;
        pagmo::population pop0{pagmo::problem(traced(fresh)), 0u, 1u};
        std::vector<eval> init;
        for (auto &x : xs) {
            pop0.push_back(x);
            init.push_back({x, pop0.get_f().back()});
        }
        const auto fev0 = pop0.get_problem().get_fevals();
        mc::rep().transitions += mc::explore(K, depth, [&]() {
            TR.clear();
            REC = true;
            mc::alive();
            auto fin = run(p, pop0);
            REC = false;
            auto &c = mc::chooser::get();
            c.active = false; // (the checks draw nothing that counts)
            std::string w = p.alg < 3u ? single(q, fresh, p, init, fin, fev0) : multi(q, fresh, p, init, fin, fev0);
            c.active = true;
            mc::check(w.empty(), "evolve", [&]() { return "from " + show(init) + "with draws " + mc::choices() + ": " + w; });
            mc::check(bits(pop0.get_f()[0], init[0].f) && pop0.get_problem().get_fevals() == fev0, "input-population", []() { return std::string("the caller's population changed"); });
        });
        ++mc::rep().traces;
    }
}
// What every mutant may be must also occur: over the seeds, all numbers of mutated genes up to max_mut, and constants each moved by
// an amount of its own, in both directions, around those of the parent.
static void variety(const conf &q, unsigned alg, unsigned mut, unsigned seeds)
{
    par p{alg, 1u, mut, 0., 0u};
    if (!mc::begin("variety " + p.str() + " " + q.str())) return;
    ++mc::rep().states;
    const SR fresh = make(q);
    std::set<unsigned> counts;
    std::vector<std::set<double>> deltas(q.eph);
    bool apart = false;
    auto B = ref::bases(q.s());
    for (unsigned seed = 1; seed <= seeds; ++seed) {
        mc::alive();
        REC = false;
        pagmo::population pop{pagmo::problem(traced(fresh)), 0u, 1u};
        for (unsigned i = 0; i < 3u; ++i) {
            dvec v;
            for (unsigned j = 0; j < q.eph; ++j) v.push_back((i + j) % 2u ? -1000. * (1u + i + j) : 1000. * (1u + i + j));
            v.insert(v.end(), B[i].begin(), B[i].end());
            pop.push_back(v);
        }
        const auto init = content(pop);
        unsigned best = 0;
        for (unsigned i = 1; i < 3u; ++i) if (cmp(init[i].f[0], init[best].f[0]) < 0) best = i;
        TR.clear();
        REC = true;
        run(p, pop, seed);
        REC = false;
        ++mc::rep().transitions;
        mc::check(TR.size() == 3u, "variety", [&]() { return std::to_string(TR.size()) + " evaluations"; });
        for (unsigned i = 0; i < TR.size(); ++i) {
            const dvec &parent = init[mut && alg < 3u ? best : i].x, &x = TR[i].x;
            counts.insert(distance(parent, x, q.eph));
            if (alg == 0u || alg == 3u) {
                for (unsigned j = 0; j < q.eph; ++j) {
                    const double d = x[j] - parent[j];
                    deltas[j].insert(d);
                    if (j && std::abs(d - (x[0] - parent[0])) > 1e-6) apart = true;
                    mc::check(d != 0. && std::abs(d) < 200., "variety-constants", [&]() { return "seed " + std::to_string(seed) + ": constant " + std::to_string(j + 1u) + " of " + mc::str(parent) + " became " + mc::str(x[j]); });
                }
            }
        }
    }
    for (unsigned k = 1; k <= mut; ++k) mc::check(counts.count(k), "variety-genes", [&]() { return "no mutant with " + std::to_string(k) + " other genes among " + std::to_string(seeds) + " seeds"; });
    if (alg == 0u || alg == 3u) {
        for (unsigned j = 0; j < q.eph; ++j)
            mc::check(deltas[j].size() > seeds && *deltas[j].begin() < 0. && *deltas[j].rbegin() > 0., "variety-constants", [&]() { return "constant " + std::to_string(j + 1u) + " takes few values"; });
        mc::check(apart || q.eph < 2u, "variety-constants", []() { return std::string("all constants always move alike"); });
    }
    ++mc::rep().traces;
}
// Many individuals, generations, mutations and constants: with so many candidates the populations between the generations are
// taken from shorter evolutions of the same seed (if those made the same evaluations), one step after the other.
static std::string steps(const conf &q, const SR &fresh, const par &p, const pagmo::population &pop0, const std::vector<eval> &init, const pagmo::population &fin, unsigned seed)
{
    const unsigned NP = static_cast<unsigned>(init.size()), G = static_cast<unsigned>(TR.size()) / NP;
    if (G != p.gen && p.ftol == 0.) return "stops after " + std::to_string(G) + " generations";
    const auto full = TR;
    const auto log = LOG;
    SR sr(fresh);
    std::vector<std::vector<eval>> P{init};
    for (unsigned k = 1; k < G; ++k) {
        par t(p);
        t.gen = k;
        t.verb = 0u;
        TR.clear();
        REC = true;
        P.push_back(content(run(t, pop0, seed)));
        REC = false;
        bool same = TR.size() == NP * k;
        for (unsigned i = 0; same && i < TR.size(); ++i) same = bits(TR[i].x, full[i].x) && bits(TR[i].f, full[i].f);
        if (!same) {
            mc::rep().counters["evolutions whose beginnings differ"]++;
            return "";
        }
    }
    P.push_back(content(fin));
    for (unsigned k = 0; k < G; ++k) {
        mc::alive();
        // every mutant descends from an individual of its own
        std::vector<int> owner(NP, -1);
        std::vector<std::vector<char>> can(NP, std::vector<char>(NP, 0));
        for (unsigned i = 0; i < NP; ++i)
            for (unsigned j = 0; j < NP; ++j) can[i][j] = distance(P[k][j].x, full[k * NP + i].x, q.eph) <= p.mut && descends(q, sr, p, P[k][j].x, full[k * NP + i].x).empty();
        std::function<bool(unsigned, std::vector<char> &)> match = [&](unsigned i, std::vector<char> &used) {
            for (unsigned j = 0; j < NP; ++j) {
                if (!can[i][j] || used[j]) continue;
                used[j] = 1;
                if (owner[j] < 0 || match(static_cast<unsigned>(owner[j]), used)) {
                    owner[j] = static_cast<int>(i);
                    return true;
                }
            }
            return false;
        };
        for (unsigned i = 0; i < NP; ++i) {
            std::vector<char> used(NP, 0);
            if (!match(i, used)) return "generation " + std::to_string(k + 1u) + " does not evaluate one mutant of each individual, such as " + mc::str(full[k * NP + i].x);
        }
        std::vector<eval> cand(P[k]);
        for (unsigned i = 0; i < NP; ++i) {
            auto &e = full[k * NP + i];
            bool dup = false;
            for (auto &z : cand) dup = dup || z.f == e.f;
            if (p.alg != 5u || (!dup && std::isfinite(e.f[0]))) cand.push_back(e);
        }
        // what is kept is a part of the candidates, and nothing left over dominates any of it
        std::vector<char> taken(cand.size(), 0);
        for (auto &e : P[k + 1u]) {
            bool found = false;
            for (unsigned i = 0; !found && i < cand.size(); ++i)
                if (!taken[i] && bits(cand[i].x, e.x) && bits(cand[i].f, e.f)) taken[i] = found = true;
            if (!found) return "generation " + std::to_string(k + 1u) + " keeps " + mc::str(e.x) + mc::str(e.f) + ", which is no parent nor an admissible mutant";
        }
        bool distinct = true;
        double lo = cand[0].f[0], kept = P[k + 1u][0].f[0];
        for (unsigned i = 0; i < cand.size(); ++i) {
            distinct = distinct && std::isfinite(cand[i].f[0]);
            for (unsigned j = 0; distinct && j < i; ++j) distinct = !bits(cand[i].f, cand[j].f);
            if (cmp(cand[i].f[0], lo) < 0) lo = cand[i].f[0];
            if (taken[i]) continue;
            for (auto &e : P[k + 1u]) if (dominates(cand[i].f, e.f)) return "generation " + std::to_string(k + 1u) + " discards " + mc::str(cand[i].f) + " and keeps " + mc::str(e.f);
        }
        for (auto &e : P[k + 1u]) if (cmp(e.f[0], kept) < 0) kept = e.f[0];
        if (distinct && cmp(kept, lo) != 0) return "generation " + std::to_string(k + 1u) + " loses the lowest loss " + mc::str(lo);
        for (auto &l : log) {
            if (l.gen != k + 1u) continue;
            if (l.fevals != static_cast<unsigned long long>(l.gen) * NP || cmp(l.best, kept) != 0) return "log line of generation " + std::to_string(l.gen) + ": " + std::to_string(l.fevals) + " evaluations, best " + mc::str(l.best) + " instead of " + mc::str(kept);
        }
        mc::rep().counters["generations of large populations"]++;
    }
    if (p.verb && log.size() != (G + p.verb - 1u) / p.verb + 1u) return std::to_string(log.size()) + " log lines";
    return "";
}
static void large_run(const conf &q, const par &p, unsigned NP, unsigned seeds)
{
    if (!mc::begin("large " + p.str() + " " + q.str() + " np" + std::to_string(NP))) return;
    ++mc::rep().states;
    const SR fresh = make(q);
    const shape s = q.s();
    const auto X = ref::large_chromosomes(s, std::max(1u, s.size() / NP));
    for (unsigned seed = 1; seed <= seeds; ++seed) {
        mc::alive();
        REC = false;
        pagmo::population pop0{pagmo::problem(traced(fresh)), 0u, 1u};
        std::vector<eval> init;
        for (unsigned i = 0; i < NP; ++i) {
            dvec v;
            for (unsigned j = 0; j < q.eph; ++j) v.push_back((i + j) % 2u ? -1.5 + 0.25 * j : 0.8 - 0.15 * (i + j));
            auto &x = X[(i * 3u + seed) % X.size()];
            v.insert(v.end(), x.begin(), x.end());
            pop0.push_back(v);
            init.push_back({v, pop0.get_f().back()});
        }
        const auto fev0 = pop0.get_problem().get_fevals();
        TR.clear();
        REC = true;
        auto fin = run(p, pop0, seed);
        REC = false;
        ++mc::rep().transitions;
        std::string w;
        if (p.alg < 3u) {
            w = single(q, fresh, p, init, fin, fev0);
            if (w.empty() && p.verb && LOG.size() != (TR.size() / NP + p.verb - 1u) / p.verb + 1u) w = std::to_string(LOG.size()) + " log lines";
        } else {
            w = common(q, fresh, p, init, fin, fev0);
            if (w.empty()) w = steps(q, fresh, p, pop0, init, fin, seed);
        }
        mc::check(w.empty(), "large", [&]() { return "seed " + std::to_string(seed) + ": " + w; });
    }
    ++mc::rep().traces;
}
static void contract(bool mo)
{
    if (!mc::begin(std::string("contract") + (mo ? " mo" : ""))) return;
    ++mc::rep().states;
    ++mc::rep().traces;
    auto inv = [](const char *what, const std::string &msg, const std::function<void()> &f) {
        auto oc = mc::outcome_of(f);
        ++mc::rep().transitions;
        mc::check(oc == "invalid_argument", what, [&]() { return msg + ": '" + oc + "'"; });
    };
    conf q{1u, 1u, 1u, 2u, 2u, 2u, 1u, {"sum", "mul"}, mo};
    conf w(q);
    w.mo = !mo;
    auto evo = [&](unsigned alg, pagmo::population p, unsigned gen) { par a{alg, gen, 2u, 0., 0u}; return run(a, p); };
    for (unsigned alg = mo ? 3u : 0u; alg < (mo ? 6u : 3u); ++alg)
        for (unsigned gen : {0u, 1u}) {
            std::string n = par{alg, gen, 2u, 0., 0u}.str();
            inv("foreign-problem", n, [&]() { evo(alg, pagmo::population(pagmo::problem(pagmo::rosenbrock{4u}), 5u, 1u), gen); });
            inv("objectives", n, [&]() { evo(alg, pagmo::population(pagmo::problem(make(w)), 5u, 1u), gen); });
            for (unsigned np : {0u, 1u}) inv("population-size", n + " np" + std::to_string(np), [&]() { evo(alg, pagmo::population(pagmo::problem(make(q)), np, 1u), gen); });
        }
    if (!mo) {
        inv("max_mut", "es", [] { dcgp::es4cgp(1u, 0u); });
        inv("max_mut", "mes", [] { dcgp::mes4cgp(1u, 0u); });
        inv("ftol", "es", [] { dcgp::es4cgp(1u, 1u, -1e-300); });
        inv("ftol", "mes", [] { dcgp::mes4cgp(1u, 1u, -1.); });
    } else {
        inv("max_mut", "moes", [] { dcgp::moes4cgp(1u, 0u); });
        inv("max_mut", "momes", [] { dcgp::momes4cgp(1u, 0u); });
        inv("ftol", "moes", [] { dcgp::moes4cgp(1u, 1u, -1e-300); });
        inv("ftol", "momes", [] { dcgp::momes4cgp(1u, 1u, -1.); });
    }
}
// ---------------------------------------------------------------- gd4cgp
static void descent(const conf &q, double lr, double lr_min, unsigned iters, unsigned verb, bool big = false)
{
    if (!mc::begin("gd4cgp " + q.str() + " lr" + mc::str(lr) + " min" + mc::str(lr_min) + " it" + std::to_string(iters) + " v" + std::to_string(verb))) return;
    const SR fresh = make(q);
    SR sr(fresh);
    shape s = q.s();
    auto from = [&](const uvec &u) {
        mc::alive();
        ++mc::rep().states;
        for (unsigned k = 0; k < 3u; ++k) {
            REC = false;
            pagmo::population pop{pagmo::problem(traced(fresh)), 0u, 1u};
            dvec a, b;
            for (unsigned j = 0; j < q.eph; ++j) a.push_back(k == 0u ? 0.8 - 0.35 * j : k == 1u ? -1.5 + 0.75 * j : 0.), b.push_back(3. - j);
            auto B = ref::bases(s)[2];
            b.insert(b.end(), B.begin(), B.end());
            a.insert(a.end(), u.begin(), u.end());
            pop.push_back(a);
            pop.push_back(b);
            const auto init = content(pop);
            for (unsigned pol = 0; pol < 3u; ++pol) {
                // (policy, chosen, replaced)
                dcgp::gd4cgp alg(iters, lr, lr_min);
                alg.set_verbosity(verb);
                unsigned sel = cmp(init[1].f[0], init[0].f[0]) < 0 ? 1u : 0u, rep = sel;
                if (pol == 0u) { sel = 0u; rep = 0u; alg.set_selection(pagmo::population::size_type(0u)); alg.set_replacement(pagmo::population::size_type(0u)); }
                if (pol == 1u) { alg.set_selection("best"); alg.set_replacement("best"); if (cmp(init[0].f[0], init[1].f[0]) == 0 || std::isnan(init[0].f[0]) || std::isnan(init[1].f[0])) continue; }
                if (pol == 2u) { sel = 0u; rep = 1u; alg.set_selection(pagmo::population::size_type(0u)); alg.set_replacement(pagmo::population::size_type(1u)); }
                ++mc::rep().transitions;
                TR.clear();
                REC = true;
                auto fin = alg.evolve(pop);
                REC = false;
                // the reference descent
                std::string w;
                dvec x = init[sel].x;
                double f = init[sel].f[0], rate = lr;
                unsigned at = 0;
                bool moved = false;
                if (std::isfinite(f)) {
                    for (unsigned it = 0; w.empty() && it < iters; ++it) {
                        auto g = sr.gradient(x);
                        double n = 0;
                        for (double z : g) n += z * z;
                        n = std::sqrt(n);
                        if (n < 1e-13 || !std::isfinite(n)) break;
                        if (at >= TR.size()) { w = "stops after " + std::to_string(at) + " steps"; break; }
                        const auto &e = TR[at++];
                        for (unsigned j = 0; j < x.size(); ++j) {
                            double want = j < q.eph ? x[j] - rate * g[j] / n : x[j];
                            if (!mc::close(e.x[j], want, 1e-9, 1e-12)) w = "step " + std::to_string(at) + " goes to " + mc::str(e.x) + " from " + mc::str(x) + " with rate " + mc::str(rate) + ", gradient " + mc::str(g);
                        }
                        if (cmp(e.f[0], f) < 0) { x = e.x; f = e.f[0]; rate *= 1.5; moved = true; }
                        else if ((rate /= 4.) < lr_min) break;
                    }
                }
                if (w.empty() && at != TR.size()) w = std::to_string(TR.size()) + " steps instead of " + std::to_string(at);
                auto F = content(fin);
                if (w.empty()) {
                    if (F.size() != 2u) w = "population size";
                    else {
                        bool written = std::isfinite(init[sel].f[0]) && iters;
                        for (unsigned i = 0; i < 2u; ++i) {
                            const dvec &wx = i == rep && written ? x : init[i].x;
                            double wf = i == rep && written ? f : init[i].f[0];
                            if (!mc::close(F[i].x, wx, 1e-12, 0.) || cmp(F[i].f[0], wf) != 0) w = "individual " + std::to_string(i) + " is " + mc::str(F[i].x) + " " + mc::str(F[i].f) + " instead of " + mc::str(wx) + " " + mc::str(wf);
                        }
                        if (w.empty() && fin.get_problem().get_fevals() - pop.get_problem().get_fevals() != TR.size()) w = "evaluations miscounted";
                        auto fr = SR(fresh).fitness(F[rep].x);
                        if (w.empty() && !mc::close(fr[0], F[rep].f[0], 1e-9, 1e-12) && (std::isfinite(fr[0]) || std::isfinite(F[rep].f[0]))) w = "fitness of " + mc::str(F[rep].x) + " is not " + mc::str(F[rep].f);
                    }
                }
                // the log
                const auto &log = alg.get_log();
                if (w.empty() && verb == 0u && !log.empty()) w = "logs with verbosity 0";
                if (w.empty() && verb && std::isfinite(init[sel].f[0]) && iters) {
                    if (log.empty()) w = "no log";
                    for (unsigned i = 0; w.empty() && i < log.size(); ++i) {
                        if (i && (std::get<0>(log[i]) < std::get<0>(log[i - 1u]) || std::get<1>(log[i]) < std::get<1>(log[i - 1u]) || std::get<2>(log[i]) < std::get<2>(log[i - 1u]) || cmp(std::get<5>(log[i]), std::get<5>(log[i - 1u])) > 0)) w = "log line " + std::to_string(i) + " goes back";
                        if (std::get<1>(log[i]) > TR.size() || std::get<4>(log[i]) <= 0.) w = "log line " + std::to_string(i);
                        if (i + 1u < log.size() && std::get<1>(log[i]) != std::get<0>(log[i])) w = "log line " + std::to_string(i) + ": " + std::to_string(std::get<1>(log[i])) + " evaluations in iteration " + std::to_string(std::get<0>(log[i]));
                    }
                    if (w.empty() && (std::get<1>(log.back()) != TR.size() || cmp(std::get<5>(log.back()), f) != 0)) w = "last log line: " + std::to_string(std::get<1>(log.back())) + " evaluations, best " + mc::str(std::get<5>(log.back()));
                }
                mc::check(w.empty(), "descent", [&]() { return "policy " + std::to_string(pol) + " from " + show(init) + ": " + w; });
                if (moved) mc::outcome(mc::str(F[rep].x));
            }
        }
        ++mc::rep().traces;
    };
    if (big) {
        for (auto &x : ref::large_chromosomes(s, mc::rep().thorough ? 3u : 17u)) from(x);
    } else if (!ref::all_chromosomes(s, mc::rep().thorough ? 4000u : 300u, from)) {
        for (auto &b : ref::bases(s)) ref::near_chromosomes(s, b, mc::rep().thorough ? 2u : 1u, from);
    } else mc::rep().counters["shapes with every chromosome"]++;
}
static void gd_contract()
{
    if (!mc::begin("gd4cgp contract")) return;
    ++mc::rep().states;
    ++mc::rep().traces;
    auto refused = [](const char *what, const std::function<void()> &f, bool want = true) {
        auto oc = mc::outcome_of(f);
        ++mc::rep().transitions;
        mc::check(want ? oc == "invalid_argument" : oc.empty(), "gd-contract", [&]() { return std::string(what) + ": '" + oc + "'"; });
    };
    const double N = std::numeric_limits<double>::quiet_NaN(), I = std::numeric_limits<double>::infinity();
    for (double lr : {-1., 0., 1e-3, 1., N, I})
        for (double mn : {-1., 0., 1e-300, 1e-3, 0.5, 1., 2., N, I}) refused(("lr " + mc::str(lr) + " min " + mc::str(mn)).c_str(), [&]() { dcgp::gd4cgp(1u, lr, mn); }, !(mn > 0. && mn < lr));
    conf q{1u, 1u, 1u, 2u, 2u, 2u, 1u, {"sum", "mul"}, false}, m(q), z(q);
    m.mo = true;
    z.eph = 0u;
    for (unsigned it : {0u, 1u}) {
        dcgp::gd4cgp a(it);
        refused("foreign problem", [&]() { a.evolve(pagmo::population(pagmo::problem(pagmo::rosenbrock{4u}), 5u, 1u)); });
        refused("multi objective", [&]() { a.evolve(pagmo::population(pagmo::problem(make(m)), 5u, 1u)); });
        refused("no constants", [&]() { a.evolve(pagmo::population(pagmo::problem(make(z)), 5u, 1u)); });
        refused("fine", [&]() { a.evolve(pagmo::population(pagmo::problem(make(q)), 1u, 1u)); }, false);
    }
}
#if MODE < 3
static void body()
{
    const bool T = mc::rep().thorough;
    std::vector<conf> Q;
    const bool mo = MODE == 2;
    for (unsigned eph : {0u, 1u, 2u, 3u}) Q.push_back({1u, 1u, 1u, 3u, 3u, 2u, eph, {"sum", "mul", "diff"}, mo});
    Q.push_back({2u, 1u, 2u, 2u, 1u, 2u, 2u, {"mul", "sum"}, mo});
    Q.push_back({1u, 1u, 1u, 2u, 3u, 2u, 1u, {"log", "div", "sum"}, mo}); // losses that are not finite
    Q.push_back({1u, 2u, 1u, 2u, 2u, 2u, 2u, {"div", "mul", "sum"}, mo});
    for (unsigned alg = mo ? 3u : 0u; alg < (mo ? 6u : 3u); ++alg)
        for (auto &q : Q) {
            for (unsigned gen : {1u, 2u})
                for (unsigned mut : {1u, 3u}) evolve(q, {alg, gen, mut, 0., 0u}, 3u, T ? 7u : 4u);
            for (double ftol : {1., 20., 1e9})
                for (unsigned verb : {0u, 2u, 1u}) {
                    if (!T && (verb == 1u) != (ftol == 20.)) continue;
                    if (verb) std::cout.setstate(std::ios::failbit);
                    evolve(q, {alg, 3u, 2u, ftol, verb}, 2u, T ? 6u : 3u);
                    std::cout.clear();
                }
            if (T) evolve(q, {alg, 4u, 2u, 0., 0u}, 2u, 10u);
        }
    for (unsigned alg = mo ? 3u : 0u; alg < (mo ? 6u : 3u); ++alg)
        for (unsigned eph : {1u, 2u, 3u})
            for (unsigned mut : {1u, 2u, 4u}) variety({1u, 1u, 2u, 8u, 8u, 2u, eph, {"sum", "mul", "diff"}, mo}, alg, mut, T ? 512u : 64u);
    std::cout.setstate(std::ios::failbit);
    for (unsigned alg = mo ? 3u : 0u; alg < (mo ? 6u : 3u); ++alg) {
        large_run({1u, 1u, 3u, 12u, 4u, 2u, 12u, {"sum", "mul", "diff", "div"}, mo}, {alg, T ? 30u : 14u, 20u, 0., 5u}, T ? 40u : 13u, T ? 6u : 2u);
        large_run({2u, 2u, 1u, 150u, 2u, 2u, 3u, {"sum", "sin", "diff"}, mo}, {alg, 6u, 200u, 0., 0u}, 9u, T ? 6u : 2u);
        large_run({3u, 14u, 40u, 3u, 2u, 3u, 0u, {"sum", "mul", "diff"}, mo}, {alg, 5u, 60u, 0., 1u}, T ? 100u : 33u, T ? 4u : 1u);
        large_run({1u, 1u, 1u, 4u, 4u, 2u, 1u, {"sum", "mul"}, mo}, {alg, T ? 130u : 55u, 2u, 0., 1u}, 4u, T ? 20u : 3u);
        large_run({1u, 1u, 1u, 4u, 4u, 2u, 12u, {"sum", "mul", "diff"}, mo}, {alg, 3u, 3u, 0., 0u}, 6u, T ? 200u : 24u);
    }
    std::cout.clear();
    contract(mo);
}
#else
static void body()
{
    const bool T = mc::rep().thorough;
    for (unsigned it : {0u, 1u, 2u, 3u, T ? 40u : 12u}) {
    if (!T && it == 2u) continue;
    for (unsigned eph : {1u, 2u, 3u})
        for (auto &k : {names_t{"sum", "mul", "diff"}, names_t{"div", "sum", "sin"}, names_t{"log", "exp", "pdiv"}}) {
            conf q{1u, 1u, 1u, 2u, 3u, 2u, eph, k, false}, q2{1u, 2u, 2u, 2u, 1u, 2u, eph, k, false};
            for (auto &z : {q, q2})
                for (double lr : {1., 0.1})
                    for (double mn : {1e-3, 0.05}) {
                            if (!T && lr == 0.1 && mn == 1e-3 && it < 4u) continue;
                            const unsigned v = it == 3u ? 2u : it > 3u ? 1u : 0u;
                            if (v) std::cout.setstate(std::ios::failbit);
                            descent(z, lr, mn, it, v);
                            std::cout.clear();
                        }
        }
    }
    std::cout.setstate(std::ios::failbit);
    for (unsigned it : {3u, T ? 400u : 130u}) {
        descent({1u, 1u, 3u, 12u, 4u, 2u, 12u, {"sum", "mul", "diff"}, false}, 1., 1e-8, it, 7u, true);
        descent({2u, 3u, 1u, 60u, 2u, 2u, 4u, {"sum", "sin", "mul"}, false}, 0.5, 1e-6, it, 3u, true);
        descent({1u, 1u, 1u, 8u, 8u, 3u, 25u, {"sum", "mul"}, false}, 10., 1e-6, it, 1u, true);
    }
    std::cout.clear();
    gd_contract();
}
#endif
int main(int argc, char **argv)
{
    dcgp::details::extract_sr_cpp_py = extract;
    return mc::main(argc, argv, body);
}
