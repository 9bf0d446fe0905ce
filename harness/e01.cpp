// E01: encoding. Bounds are exactly the acyclic, levels-back-respecting wirings; construction validates its arguments;
// the initial random expression is within them for every answer of the random engine; only valid chromosomes are accepted.
#include "common.hpp"
using namespace hc;

template <typename T>
static void grid_one(unsigned n, unsigned m, unsigned r, unsigned c, unsigned l, const uvec &ar, unsigned nf, unsigned eph,
                     bool uniform, const std::vector<kernel<T>> &all, const std::string &tag)
{
    std::string d = tag + " ctor n" + std::to_string(n) + "m" + std::to_string(m) + "r" + std::to_string(r) + "c"
                    + std::to_string(c) + "l" + std::to_string(l) + "a" + mc::str(ar) + "f" + std::to_string(nf) + "e"
                    + std::to_string(eph) + (uniform ? "u" : "v");
    if (!mc::begin(d)) return;
    std::vector<kernel<T>> f(all.begin(), all.begin() + nf);
    bool bad = (n + eph == 0) || m == 0 || r == 0 || c == 0 || l == 0 || nf == 0;
    if (uniform) {
        bad = bad || ar[0] == 0;
    } else {
        bad = bad || ar.size() != c;
        for (auto a : ar) bad = bad || a == 0;
    }
    if (n == 0 && eph > 0) return; // only constants as inputs: not specified
    ++mc::rep().states;
    std::string o = mc::outcome_of([&]() {
        expression<T> e = uniform ? expression<T>(n, m, r, c, l, ar[0], f, eph, 7u) : expression<T>(n, m, r, c, l, ar, f, eph, 7u);
        shape s{n + eph, m, r, c, l, uniform ? uvec(c, ar[0]) : ar, nf};
        mc::outcome(mc::str(e.get_lb()) + mc::str(e.get_ub()));
        mc::check(e.get_lb().size() == s.size() && e.get_ub().size() == s.size() && e.get().size() == s.size(),
                  "length", [&]() { return "wrong chromosome length " + std::to_string(e.get().size()); });
        if (e.get_lb().size() != s.size() || e.get_ub().size() != s.size()) return;
        for (unsigned g = 0; g < s.size(); ++g) {
            auto al = s.allowed(g);
            ++mc::rep().transitions;
            bool ok = e.get_lb()[g] == al.front() && e.get_ub()[g] == al.back()
                      && al.size() == al.back() - al.front() + 1u;
            mc::check(ok, "bounds", [&]() {
                return "gene " + std::to_string(g) + " has bounds [" + std::to_string(e.get_lb()[g]) + ","
                       + std::to_string(e.get_ub()[g]) + "], the wirings allowed are " + mc::str(al);
            });
        }
        std::string w = inconsistent(e, s);
        mc::check(w.empty(), "initial-state", [&]() { return w; });
        mc::check(e.get_gene_idx().size() == s.nodes(), "gene-idx", [&]() { return std::string("size"); });
        for (unsigned k = s.n; k < s.nodes(); ++k) {
            mc::check(e.get_gene_idx()[k] == s.gene(k), "gene-idx", [&]() {
                return "node " + std::to_string(k) + " starts at " + std::to_string(e.get_gene_idx()[k]) + " instead of "
                       + std::to_string(s.gene(k));
            });
            mc::check(e.get_arity(k) == s.ar(k), "arity", [&]() { return "node " + std::to_string(k); });
        }
        for (unsigned k : {0u, s.n - 1u, s.nodes(), s.nodes() + 1u, 4294967295u}) {
            std::string oo = mc::outcome_of([&]() { e.get_arity(k); });
            mc::check(oo == "invalid_argument", "arity-arg", [&]() { return "get_arity(" + std::to_string(k) + ") -> '" + oo + "'"; });
        }
        mc::check(e.get_eph_val().size() == eph && e.get_eph_symb().size() == eph, "eph", [&]() { return std::string("number of constants"); });
        for (unsigned i = 0; i < e.get_eph_symb().size(); ++i) {
            mc::check(e.get_eph_symb()[i] == "c" + std::to_string(i + 1u), "eph", [&]() { return "symbol " + e.get_eph_symb()[i]; });
        }
    });
    ++mc::rep().traces;
    mc::check(o == (bad ? "invalid_argument" : ""), "validation",
              [&]() { return "construction gave '" + o + "', expected '" + (bad ? "invalid_argument" : "") + "'"; });
}

template <typename T>
static void grid(unsigned big, const std::string &tag)
{
    auto all = kernels<T>({"sum", "diff", "mul"});
    for (unsigned n = 0; n <= (big ? 3u : 2u); ++n)
        for (unsigned m = 0; m <= (big ? 3u : 2u); ++m)
            for (unsigned r = 0; r <= (big ? 3u : 2u); ++r)
                for (unsigned c = 0; c <= (big ? 4u : 2u); ++c)
                    for (unsigned li = 0; li <= c + 3u; ++li)
                        for (unsigned nf : {0u, 1u, 3u})
                            for (unsigned eph : {0u, 2u}) {
                                unsigned l = li == c + 3u ? 4294967295u : li;
                                for (unsigned a = 0; a <= 3u; ++a) grid_one<T>(n, m, r, c, l, {a}, nf, eph, true, all, tag);
                                if (nf == 3u && eph == 2u && !big) continue;
                                // every per-column arity vector of length c, and wrong lengths
                                mc::product(std::vector<unsigned>(c, c <= 2u ? 4u : 3u), [&](const uvec &a) {
                                    grid_one<T>(n, m, r, c, l, a, nf, eph, false, all, tag);
                                });
                                grid_one<T>(n, m, r, c, l, uvec(c + 1u, 2u), nf, eph, false, all, tag);
                                if (c) grid_one<T>(n, m, r, c, l, uvec(c - 1u, 2u), nf, eph, false, all, tag);
                            }
}

// set() accepts exactly the valid chromosomes
static void acceptance(std::uint64_t cap)
{
    std::uint64_t full = 0, dev = 0;
    for (auto &s : shapes(2, 2, 2, 3, 2, 2)) {
        if (!mc::begin("accept " + s.str())) continue;
        auto f = kernels({"sum", "mul"});
        f.resize(s.nf);
        expression<double> e(s.n, s.m, s.r, s.c, s.l, s.arity, f, 0u, 3u);
        auto one = [&](const uvec &x) {
            ++mc::rep().transitions;
            ++mc::rep().traces;
            bool v = s.valid(x);
            uvec before(e.get());
            std::string o = mc::outcome_of([&]() { e.set(x); });
            mc::check(o == (v ? "" : "invalid_argument"), "acceptance", [&]() { return "set(" + mc::str(x) + ") -> '" + o + "'"; });
            mc::check(uvec(e.get()) == (v ? x : before), "acceptance-state", [&]() { return "after set(" + mc::str(x) + ") chromosome is " + mc::str(e.get()); });
            std::vector<double> xd(x.begin(), x.end());
            o = mc::outcome_of([&]() { e.set_from_range(xd.begin(), xd.end()); });
            mc::check(o == (v ? "" : "invalid_argument"), "acceptance", [&]() { return "set_from_range(" + mc::str(x) + ") -> '" + o + "'"; });
        };
        double tot = 1;
        for (unsigned g = 0; g < s.size(); ++g) tot *= s.nodes() + 1.;
        if (tot <= cap) {
            ++full;
            mc::product(std::vector<unsigned>(s.size(), std::max(s.nodes(), s.nf) + 1u), one);
        } else {
            ++dev;
            for (auto &b : ref::bases(s)) {
                for (unsigned g = 0; g < s.size(); ++g)
                    for (unsigned v = 0; v <= s.nodes() + 1u; ++v) {
                        uvec x(b);
                        x[g] = v == s.nodes() + 1u ? 4294967295u : v;
                        one(x);
                    }
            }
        }
        // genes given as floating-point numbers just outside their bounds, or not numbers at all
        for (auto &b : ref::bases(s)) {
            for (unsigned g = 0; g < s.size(); ++g) {
                for (double v : {e.get_ub()[g] + 0.5, e.get_ub()[g] + 1e10, e.get_lb()[g] - 0.5, -1., -1e10, std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::infinity()}) {
                    std::vector<double> xd(b.begin(), b.end());
                    xd[g] = v;
                    e.set(b);
                    ++mc::rep().transitions;
                    std::string o = mc::outcome_of([&]() { e.set_from_range(xd.begin(), xd.end()); });
                    mc::check(o == "invalid_argument" && uvec(e.get()) == b, "acceptance", [&]() { return "set_from_range(" + mc::str(xd) + ") -> '" + o + "'"; });
                }
            }
        }
        for (auto &b : ref::bases(s)) {
            uvec x(b);
            x.pop_back();
            one(x);
            x = b;
            x.push_back(b.back());
            one(x);
            one(uvec());
        }
        ++mc::rep().states;
    }
    mc::rep().counters["shapes with every chromosome tried"] = full;
    mc::rep().counters["shapes with every 1-gene deviation tried"] = dev;
}

// initial expressions, for every answer of the random engine
static void initial(unsigned depth)
{
    for (auto &s : shapes(2, 2, 2, 2, 2, 2)) {
        for (unsigned eph = 0; eph <= (s.n > 1 ? 1u : 0u); ++eph) {
            if (!mc::begin("initial " + s.str() + " eph" + std::to_string(eph))) continue;
            auto f = kernels({"sum", "mul"});
            f.resize(s.nf);
            unsigned K = std::max(s.nodes(), s.nf);
            std::set<uvec> seen;
            std::set<double> ephs;
            mc::explore(K, depth, [&]() {
                expression<double> e(s.n - eph, s.m, s.r, s.c, s.l, s.arity, f, eph, 1u);
                ++mc::rep().transitions;
                ++mc::rep().traces;
                uvec x(e.get());
                if (seen.insert(x).second) ++mc::rep().states;
                mc::check(s.valid(x), "initial", [&]() { return "random initial chromosome " + mc::str(x) + " draws " + mc::choices(); });
                for (auto v : e.get_eph_val()) {
                    ephs.insert(v);
                    mc::check(v >= -10. && v <= 10., "initial-eph", [&]() { return "initial constant " + mc::str(v); });
                }
            });
            if (s.size() <= depth) {
                // small enough: every valid chromosome must be a possible start
                mc::check(seen.size() == ref::count_chromosomes(s), "initial-coverage", [&]() {
                    return "only " + std::to_string(seen.size()) + " of " + std::to_string(ref::count_chromosomes(s)) + " chromosomes can be generated";
                });
                mc::rep().counters["shapes whose every chromosome is generated"]++;
            }
            if (eph && s.size() + 2u <= depth) {
                mc::check(ephs.size() > 1u && *ephs.begin() < 0. && *ephs.rbegin() > 0., "initial-eph", [&]() { return "constants do not spread over [-10,10]"; });
            }
        }
    }
}

// the same far beyond the exhaustive sizes: bounds, acceptance of each gene's extremes, initial state
template <typename T>
static void large(const std::string &tag)
{
    auto all = kernels<T>(ref::kernel_names().size() && tag == "double" ? ref::kernel_names() : std::vector<std::string>{"sum", "diff", "mul"});
    for (auto &s : ref::large(static_cast<unsigned>(all.size()))) {
        for (unsigned eph : {0u, 1u, 11u, 35u}) {
            if (s.n <= eph) continue;
            bool uni = true;
            for (auto a : s.arity) uni = uni && a == s.arity[0];
            for (unsigned l : {s.l, 1u, 2u, s.c, s.c + 1u, 100000u}) {
                grid_one<T>(s.n - eph, s.m, s.r, s.c, l, s.arity, s.nf, eph, false, all, "large " + tag);
                if (uni) grid_one<T>(s.n - eph, s.m, s.r, s.c, l, {s.arity[0]}, s.nf, eph, true, all, "large " + tag);
            }
        }
        if (!mc::begin("large accept " + tag + " " + s.str())) continue;
        expression<T> e(s.n, s.m, s.r, s.c, s.l, s.arity, all, 0u, 3u);
        for (auto &b : ref::bases(s)) {
            std::string o = mc::outcome_of([&]() { e.set(b); });
            std::string w = o.empty() ? inconsistent(e, s) : o;
            mc::check(w.empty() && uvec(e.get()) == b, "acceptance", [&]() { return w; });
            for (unsigned g = 0; g < s.size(); ++g) {
                const auto &a = s.allowed(g);
                for (unsigned v : {a.front() - 1u, a.front(), a.back(), a.back() + 1u}) {
                    uvec x(b);
                    x[g] = v;
                    const bool ok = v >= a.front() && v <= a.back();
                    o = mc::outcome_of([&]() { e.set(x); });
                    ++mc::rep().transitions;
                    mc::check(o == (ok ? "" : "invalid_argument"), "acceptance", [&]() { return "gene " + std::to_string(g) + " = " + std::to_string(v) + " -> '" + o + "'"; });
                    if (!ok) mc::check(uvec(e.get()) == b, "acceptance-state", [&]() { return "gene " + std::to_string(g) + " = " + std::to_string(v); });
                    if (ok) e.set(b);
                }
            }
            mc::alive();
        }
        ++mc::rep().states;
        ++mc::rep().traces;
    }
}

int main(int argc, char **argv)
{
    return mc::main(argc, argv, []() {
        bool t = mc::rep().thorough;
        grid<double>(t, "double");
        grid<audi::gdual_d>(0, "gdual_d");
        if (t) grid<audi::gdual_v>(0, "gdual_v");
        large<double>("double");
        large<audi::gdual_d>("gdual_d");
        acceptance(t ? 400000 : 6000);
        initial(t ? 7 : 5);
        mc::sample("shape n2m1r1c2l1a22f2: gene bounds compared with the wirings a reader in each column may use");
        mc::sample("set() of every vector in the (allowed+1) box of each small shape: accepted iff every gene is an allowed wiring");
    });
}
