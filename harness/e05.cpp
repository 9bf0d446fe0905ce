// E05 (MODE 5): a mutation touches only the genes it names, keeps the chromosome valid, changes as many genes as it says.
// E06 (MODE 6): no legal outcome is unreachable: over all answers of the random engine every allowed change occurs.
// For every chromosome of each shape x every mutation x every answer of the random engine.
#include "common.hpp"
using namespace hc;

enum kind { RANDOM, INACTIVE, ACTIVE, FGENE, CGENE, OGENE };
static const char *NAME[] = {"mutate_random", "mutate_inactive", "mutate_active", "mutate_active_fgene", "mutate_active_cgene", "mutate_ogene"};

static void apply(expression<double> &e, kind k, unsigned N)
{
    switch (k) {
        case RANDOM: e.mutate_random(N); break;
        case INACTIVE: e.mutate_inactive(N); break;
        case ACTIVE: e.mutate_active(N); break;
        case FGENE: e.mutate_active_fgene(N); break;
        case CGENE: e.mutate_active_cgene(N); break;
        case OGENE: e.mutate_ogene(N); break;
    }
}
// genes the mutation may touch, given the chromosome
static std::set<unsigned> frame(const shape &s, const uvec &x, kind k)
{
    const uvec ag = s.active(x).second;
    std::set<unsigned> act(ag.begin(), ag.end()), r;
    for (unsigned g = 0; g < s.size(); ++g) {
        auto p = s.locate(g);
        bool out = p.first == s.nodes(), fun = !out && p.second == 0u, con = !out && p.second > 0u, a = act.count(g) == 1u;
        if (k == RANDOM || (k == INACTIVE && !a) || (k == ACTIVE && a) || (k == FGENE && a && fun) || (k == CGENE && a && con) || (k == OGENE && out)) r.insert(g);
    }
    return r;
}
static std::set<unsigned> diff(const uvec &a, const uvec &b)
{
    std::set<unsigned> d;
    for (unsigned i = 0; i < a.size(); ++i)
        if (a[i] != b[i]) d.insert(i);
    return d;
}
// all results of changing one gene of the frame to another allowed value (or nothing, if some frame gene has no alternative)
static std::set<uvec> single(const shape &s, const uvec &x, const std::set<unsigned> &fr)
{
    std::set<uvec> r;
    for (auto g : fr) {
        for (auto v : s.allowed(g)) {
            if (v == x[g]) continue;
            uvec y(x);
            y[g] = v;
            r.insert(y);
        }
    }
    return r;
}
static bool all_alternatives(const shape &s, const std::set<unsigned> &fr)
{
    for (auto g : fr)
        if (s.allowed(g).size() < 2u) return false;
    return true;
}

static const std::vector<std::string> KN{"sum", "mul", "diff"};

static void shape_frames(const shape &s, std::uint64_t cap, unsigned depth1, unsigned depth2)
{
    if (!mc::begin("frames " + s.str())) return;
    std::vector<std::string> names(KN.begin(), KN.begin() + s.nf);
    auto rk = ref_kernels(names);
    expression<double> e(s.n, s.m, s.r, s.c, s.l, s.arity, kernels(names), 0u, 5u);
    unsigned K = std::max({s.size(), s.nodes(), s.nf, 2u});
    dvec in;
    for (unsigned i = 0; i < s.n; ++i) in.push_back(0.75 + i);
    auto one = [&](const uvec &x) {
        ++mc::rep().states;
        mc::alive();
        auto run = [&](const std::string &what, unsigned depth, const std::function<void()> &f, const std::function<void(const uvec &)> &post) {
            mc::explore(K, depth, [&]() {
                e.set(x);
                f();
                ++mc::rep().transitions;
                uvec y(e.get());
                std::string w = inconsistent(e, s);
                mc::check(w.empty(), "invalid-result", [&]() { return what + " on " + mc::str(x) + " draws " + mc::choices() + ": " + w; });
                if (w.empty()) post(y);
            });
            ++mc::rep().traces;
        };
        auto bad = [&](const std::string &what, const uvec &y) { return what + " turned " + mc::str(x) + " into " + mc::str(y) + " draws " + mc::choices(); };
        for (unsigned k = RANDOM; k <= OGENE; ++k) {
            auto fr = frame(s, x, kind(k));
            for (unsigned N : {0u, 1u, 2u, 3u}) {
                if (N == 3u && s.size() > 6u && !mc::rep().thorough) continue;
                std::string what = std::string(NAME[k]) + "(" + std::to_string(N) + ")";
                std::set<uvec> step1 = single(s, x, fr);
                run(what, N == 0u ? 1u : N == 1u ? depth1 : depth2, [&]() { apply(e, kind(k), N); }, [&](const uvec &y) {
                    auto d = diff(x, y);
                    mc::check(d.size() <= N, "too-many", [&]() { return bad(what, y); });
                    if (k == INACTIVE) {
                        // the phenotype must not move
                        mc::check(s.active(y).second == s.active(x).second, "phenotype", [&]() { return bad(what, y); });
                        mc::check(mc::same_bits(e(in), s.eval(x, in, rk)), "phenotype", [&]() { return bad(what, y); });
                    }
                    if (N <= 1u || (k != CGENE && k != ACTIVE)) {
                        // the frame does not move while the mutation proceeds
                        bool ok = std::includes(fr.begin(), fr.end(), d.begin(), d.end());
                        mc::check(ok, "outside-frame", [&]() { return bad(what, y); });
                    } else {
                        // genes active before any of the steps are permitted
                        bool ok = false;
                        std::function<void(const uvec &, unsigned, std::set<unsigned>)> go = [&](const uvec &z, unsigned left, std::set<unsigned> may) {
                            if (ok) return;
                            if (z == y) {
                                ok = true;
                                return;
                            }
                            if (left == 0u) return;
                            auto now = frame(s, z, kind(k));
                            may.insert(now.begin(), now.end());
                            for (unsigned g = 0; g < s.size(); ++g) {
                                if (z[g] != y[g] && may.count(g)) {
                                    uvec q(z);
                                    q[g] = y[g];
                                    go(q, left - 1u, may);
                                }
                            }
                            // a step may also pass through a value that is overwritten later
                            if (left >= 2u) {
                                for (auto g : may) {
                                    for (auto v : s.allowed(g)) {
                                        if (v == z[g] || v == y[g]) continue;
                                        uvec q(z);
                                        q[g] = v;
                                        go(q, left - 1u, may);
                                    }
                                }
                            }
                        };
                        go(x, N, {});
                        mc::check(ok, "outside-frame", [&]() { return bad(what, y); });
                    }
                    if (N == 1u && k != INACTIVE && !fr.empty() && all_alternatives(s, fr)) {
                        mc::check(d.size() == 1u, "nothing-mutated", [&]() { return bad(what, y); });
                    }
                });
            }
        }
        for (unsigned g = 0; g < s.size(); ++g) {
            std::string what = "mutate(" + std::to_string(g) + ")";
            auto post = [&](const uvec &y) {
                auto d = diff(x, y);
                bool ok = s.allowed(g).size() < 2u ? d.empty() : (d == std::set<unsigned>{g});
                mc::check(ok, "gene", [&]() { return bad(what, y); });
            };
            run(what, depth1, [&]() { e.mutate(g); }, post);
            run(what + " as list", depth1, [&]() { e.mutate(uvec{g}); }, post);
            for (unsigned h = 0; h < s.size(); ++h) {
                std::string w2 = "mutate([" + std::to_string(g) + "," + std::to_string(h) + "])";
                run(w2, std::min(depth1, 2u), [&]() { e.mutate(uvec{g, h}); }, [&](const uvec &y) {
                    std::set<unsigned> must, may{g, h};
                    for (auto q : may)
                        if (s.allowed(q).size() > 1u && g != h) must.insert(q);
                    auto d = diff(x, y);
                    mc::check(std::includes(may.begin(), may.end(), d.begin(), d.end()) && std::includes(d.begin(), d.end(), must.begin(), must.end()), "genes", [&]() { return bad(w2, y); });
                });
            }
        }
    };
    if (ref::all_chromosomes(s, cap, one)) {
        mc::rep().counters["shapes with every chromosome"]++;
    } else {
        for (auto &b : ref::bases(s)) ref::near_chromosomes(s, b, 1u, one);
        mc::rep().counters["shapes with every chromosome within 1 gene of the bases"]++;
    }
}

static void shape_reach(const shape &s, std::uint64_t cap)
{
    if (!mc::begin("reach " + s.str())) return;
    std::vector<std::string> names(KN.begin(), KN.begin() + s.nf);
    expression<double> e(s.n, s.m, s.r, s.c, s.l, s.arity, kernels(names), 0u, 5u);
    unsigned K = std::max({s.size(), s.nodes(), s.nf, 2u});
    std::map<uvec, std::set<uvec>> edges; // union over all mutations, for the global reachability check
    auto one = [&](const uvec &x) {
        ++mc::rep().states;
        mc::alive();
        auto run = [&](const std::string &what, const std::set<uvec> &want, const std::function<void()> &f) {
            std::set<uvec> got;
            for (unsigned depth : {3u, 4u, 5u}) { // more draws only if something is still missing
                mc::explore(K, depth, [&]() {
                    e.set(x);
                    f();
                    ++mc::rep().transitions;
                    got.insert(uvec(e.get()));
                });
                if (std::includes(got.begin(), got.end(), want.begin(), want.end())) break;
            }
            ++mc::rep().traces;
            mc::check(std::includes(got.begin(), got.end(), want.begin(), want.end()), "unreachable", [&]() {
                for (auto &w : want)
                    if (!got.count(w)) return what + " can never turn " + mc::str(x) + " into " + mc::str(w);
                return what;
            });
            for (auto &y : got) edges[x].insert(y);
        };
        for (unsigned k = RANDOM; k <= OGENE; ++k) {
            run(std::string(NAME[k]) + "(1)", single(s, x, frame(s, x, kind(k))), [&]() { apply(e, kind(k), 1u); });
        }
        for (unsigned g = 0; g < s.size(); ++g) {
            run("mutate(" + std::to_string(g) + ")", single(s, x, {g}), [&]() { e.mutate(g); });
            run("mutate([" + std::to_string(g) + "])", single(s, x, {g}), [&]() { e.mutate(uvec{g}); });
        }
    };
    if (ref::all_chromosomes(s, cap, one)) {
        mc::rep().counters["shapes with every chromosome"]++;
        // every chromosome can be reached from the lowest one by mutations alone
        std::set<uvec> seen{ref::bases(s)[0]};
        std::vector<uvec> todo(seen.begin(), seen.end());
        while (!todo.empty()) {
            uvec x = todo.back();
            todo.pop_back();
            for (auto &y : edges[x])
                if (seen.insert(y).second) todo.push_back(y);
        }
        mc::check(seen.size() == ref::count_chromosomes(s), "not-connected", [&]() { return "mutations reach " + std::to_string(seen.size()) + " of " + std::to_string(ref::count_chromosomes(s)) + " chromosomes"; });
    } else {
        for (auto &b : ref::bases(s)) ref::near_chromosomes(s, b, 1u, one);
        mc::rep().counters["shapes with every chromosome within 1 gene of the bases"]++;
    }
    mc::sample(s.str() + ": " + std::to_string(edges.size()) + " chromosomes, edges of the first: " + std::to_string(edges.begin()->second.size()));
}

// far beyond the exhaustive sizes: every first answer of the random engine
static void large_frames(const shape &s)
{
    if (!mc::begin("large frames " + s.str())) return;
    auto rk = ref_kernels(KN);
    expression<double> e(s.n, s.m, s.r, s.c, s.l, s.arity, kernels(KN), 0u, 5u);
    const unsigned K = std::max({s.size(), s.nodes(), s.nf, 2u});
    dvec in;
    for (unsigned i = 0; i < s.n; ++i) in.push_back(0.75 + 0.1 * i);
    unsigned count = 0;
    for (auto &x : std::vector<uvec>{ref::chain(s), ref::bases(s)[3]}) {
        ++mc::rep().states;
        auto run = [&](const std::string &what, unsigned depth, const std::function<void()> &f, const std::function<void(const uvec &)> &post) {
            mc::explore(K, depth, [&]() {
                e.set(x);
                f();
                ++mc::rep().transitions;
                uvec y(e.get());
                mc::check(s.valid(y), "invalid-result", [&]() { return what + " gave " + mc::str(y); });
                if (count++ % 40u == 0u) {
                    std::string w = inconsistent(e, s);
                    mc::check(w.empty(), "invalid-result", [&]() { return what + ": " + w; });
                }
                post(y);
                mc::alive();
            });
            ++mc::rep().traces;
        };
        for (unsigned k = RANDOM; k <= OGENE; ++k) {
            auto fr = frame(s, x, kind(k));
            for (unsigned N : {1u, 4u, 20u, 400u}) {
                std::string what = std::string(NAME[k]) + "(" + std::to_string(N) + ")";
                run(what, N == 1u || (N == 4u && s.size() < 60u) ? 1u : 0u, [&]() { apply(e, kind(k), N); }, [&](const uvec &y) {
                    auto d = diff(x, y);
                    mc::check(d.size() <= N, "too-many", [&]() { return what; });
                    if (N == 1u || (k != CGENE && k != ACTIVE)) mc::check(std::includes(fr.begin(), fr.end(), d.begin(), d.end()), "outside-frame", [&]() { return what + " changed " + mc::str(uvec(d.begin(), d.end())); });
                    // whatever became active on the way: no connection mutation touches functions or outputs
                    if (k == CGENE)
                        for (auto g : d) mc::check(s.locate(g).first < s.nodes() && s.locate(g).second > 0u, "outside-frame", [&]() { return what + " changed gene " + std::to_string(g); });
                    if (k == INACTIVE) mc::check(mc::same_bits(e(in), s.eval(x, in, rk)), "phenotype", [&]() { return what; });
                    if (N == 1u && k != INACTIVE && !fr.empty() && all_alternatives(s, fr)) mc::check(d.size() == 1u, "nothing-mutated", [&]() { return what; });
                });
            }
        }
        uvec every;
        std::set<unsigned> must;
        for (unsigned g = 0; g < s.size(); ++g) {
            every.push_back(g);
            if (s.allowed(g).size() > 1u) must.insert(g);
            run("mutate(" + std::to_string(g) + ")", s.size() < 60u ? 1u : 0u, [&]() { e.mutate(g); }, [&](const uvec &y) {
                auto d = diff(x, y);
                mc::check(s.allowed(g).size() < 2u ? d.empty() : d == std::set<unsigned>{g}, "gene", [&]() { return "mutate(" + std::to_string(g) + ") changed " + mc::str(uvec(d.begin(), d.end())); });
            });
        }
        run("mutate(all)", 1u, [&]() { e.mutate(every); }, [&](const uvec &y) { mc::check(diff(x, y) == must, "genes", [&]() { return std::string("mutate(all)"); }); });
    }
}
static void large_reach(const shape &s)
{
    if (!mc::begin("large reach " + s.str())) return;
    expression<double> e(s.n, s.m, s.r, s.c, s.l, s.arity, kernels(KN), 0u, 5u);
    const unsigned K = std::max({s.size(), s.nodes(), s.nf, 2u});
    for (auto &x : std::vector<uvec>{ref::chain(s), ref::bases(s)[3]}) {
        ++mc::rep().states;
        using outcome = std::set<std::pair<unsigned, unsigned>>; // (gene, new value)
        auto run = [&](const std::string &what, const std::set<unsigned> &fr, unsigned first, const std::function<void()> &f) {
            outcome got, want;
            for (auto g : fr)
                for (auto v : s.allowed(g))
                    if (v != x[g]) want.insert({g, v});
            for (unsigned depth : {first, first + 1u}) {
                mc::explore(K, depth, [&]() {
                    e.set(x);
                    f();
                    ++mc::rep().transitions;
                    for (unsigned g = 0; g < x.size(); ++g)
                        if (e.get()[g] != x[g]) got.insert({g, e.get()[g]});
                    mc::alive();
                });
                if (std::includes(got.begin(), got.end(), want.begin(), want.end())) break;
            }
            ++mc::rep().traces;
            mc::check(got == want, "unreachable", [&]() {
                for (auto &w : want)
                    if (!got.count(w)) return what + " can never give gene " + std::to_string(w.first) + " the value " + std::to_string(w.second);
                return what + " reaches more than it may";
            });
        };
        for (unsigned g = 0; g < s.size(); ++g) run("mutate(" + std::to_string(g) + ")", {g}, 1u, [&]() { e.mutate(g); });
        if (s.size() > 60u) continue;
        for (unsigned k = RANDOM; k <= OGENE; ++k) {
            if (k == INACTIVE && !mc::rep().thorough) continue; // its draws of active genes are retried: three draws and more
            run(std::string(NAME[k]) + "(1)", frame(s, x, kind(k)), 2u, [&]() { apply(e, kind(k), 1u); });
        }
    }
}

int main(int argc, char **argv)
{
    return mc::main(argc, argv, []() {
        bool t = mc::rep().thorough;
        std::vector<shape> v = shapes(2, 2, 1, 2, 2, 2);
        v.push_back(shape(1, 1, 2, 2, 1, {1, 1}, 2));
        v.push_back(shape(2, 1, 2, 2, 2, {1, 2}, 1));
        v.push_back(shape(1, 1, 1, 3, 1, {1, 2, 1}, 2));
        v.push_back(shape(1, 3, 1, 2, 3, {1, 1}, 1));
        v.push_back(shape(3, 1, 1, 2, 3, {2, 1}, 3));
        v.push_back(shape(2, 2, 2, 2, 3, {2, 1}, 3));
        v.push_back(shape(2, 1, 1, 4, 2, {2, 1, 2, 1}, 2));
        for (auto &s : v) {
            if (!t && s.n == 2 && s.m == 2 && s.c == 2 && s.nf == 1) continue; // subsumed by nf == 2 in the quick tier
#if MODE == 5
            shape_frames(s, t ? 1500 : 40, t ? 3 : 2, t || s.size() <= 6u ? 3 : 2);
#else
            shape_reach(s, t ? 6000 : 150);
#endif
        }
        for (auto &s : ref::large(3u)) {
#if MODE == 5
            large_frames(s);
#else
            large_reach(s);
#endif
        }
        mc::sample("per shape: every chromosome (or all within one gene of four bases) x each mutation x enumerated engine draws");
    });
}
