// E04: the formula printed for an expression evaluates (standard precedence) to the number the expression computes.
#include "common.hpp"
#include "symb.hpp"
using namespace hc;

static void one_set(const shape &s0, unsigned eph, const std::vector<std::string> &names, std::uint64_t cap, bool big = false)
{
    shape s(s0.n, s0.m, s0.r, s0.c, s0.l, s0.arity, static_cast<unsigned>(names.size()));
    if (!mc::begin("symbolic " + s.str() + " eph" + std::to_string(eph) + " " + mc::str(names))) return;
    expression<double> e(s.n - eph, s.m, s.r, s.c, s.l, s.arity, kernels(names), eph, 5u);
    static const double V[3][4] = {{0.5, 1.25, 2., 0.75}, {-0.5, 0.3, -1.75, 1.5}, {1.5, -2.5, 0.25, -0.6}};
    std::set<std::string> forms;
    for (unsigned style = 0; style < (eph ? 2u : 1u); ++style) {
        std::vector<std::string> in, es;
        for (unsigned i = 0; i < s.n - eph; ++i) in.push_back("x" + std::to_string(i));
        for (unsigned i = 0; i < eph; ++i) es.push_back(style ? "k" + std::to_string(50u - i) : "c" + std::to_string(i + 1u));
        if (style) e.set_eph_symb(es);
        auto one = [&](const uvec &x) {
            ++mc::rep().states;
            mc::alive();
            e.set(x);
            auto f = e(in);
            mc::check(f.size() == s.m, "outputs", [&]() { return std::to_string(f.size()) + " formulas"; });
            for (auto &p : V) {
                dvec d, ev;
                std::map<std::string, double> env;
                for (unsigned i = 0; i < s.n - eph; ++i) {
                    d.push_back(p[i % 4u] + 0.0625 * (i / 4u));
                    env[in[i]] = d.back();
                }
                for (unsigned i = 0; i < eph; ++i) {
                    const unsigned q = s.n - eph + i;
                    ev.push_back(p[q % 4u] + 0.0625 * (q / 4u));
                    env[es[i]] = ev.back();
                }
                e.set_eph_val(ev);
                auto num = e(d);
                ++mc::rep().transitions;
                for (unsigned o = 0; o < s.m; ++o) {
                    double got;
                    std::string err;
                    try {
                        got = symb::eval(f[o], env);
                    } catch (const std::exception &ex) {
                        err = ex.what();
                        got = 0;
                    }
                    mc::check(err.empty(), "unparsable", [&]() { return mc::str(x) + ": " + err; });
                    if (!err.empty()) continue;
                    // a protected operation may differ where the plain formula is not finite
                    if (!std::isfinite(got) || std::abs(got) > 1e12) continue;
                    mc::check(mc::close(got, num[o], 1e-8, 1e-9), "formula", [&]() { return mc::str(x) + " prints " + f[o] + " = " + mc::str(got) + " but computes " + mc::str(num[o]) + " at " + mc::str(d) + mc::str(ev); });
                }
            }
            for (auto &q : f) forms.insert(q);
            ++mc::rep().traces;
        };
        if (big) {
            for (auto &x : ref::large_chromosomes(s, s.size() > 100u ? 29u : 7u, true)) one(x);
            mc::rep().counters["large shapes"]++;
        } else if (ref::all_chromosomes(s, cap, one)) {
            mc::rep().counters["shapes with every chromosome"]++;
        } else {
            for (auto &b : ref::bases(s)) ref::near_chromosomes(s, b, mc::rep().thorough ? 3u : 2u, one);
            mc::rep().counters["shapes with every chromosome within 2 genes (quick) or 3 (thorough) of the bases"]++;
        }
    }
    for (auto &q : forms) mc::outcome(q);
    mc::sample(mc::str(names) + " e.g. " + *forms.rbegin());
}

int main(int argc, char **argv)
{
    return mc::main(argc, argv, []() {
        bool t = mc::rep().thorough;
        // every ordered pair of kernels nested in both positions, unary and binary
        auto &K = ref::kernel_names();
        for (auto &a : K) {
            for (auto &b : K) {
                if (b < a) continue;
                std::vector<std::string> names{a};
                if (b != a) names.push_back(b);
                bool pd = a == "pdiv" || b == "pdiv";
                one_set(shape(2, 1, 1, 2, 2, {2, 2}, 1), 0u, names, t ? 3000 : 300);
                if (!pd) one_set(shape(1, 1, 1, 2, 1, {1, 1}, 1), 0u, names, 300);
                if (!pd) one_set(shape(2, 1, 1, 2, 1, {3, 1}, 1), 1u, names, 300);
                one_set(shape(2, 1, 1, 2, 1, {2, 3}, 1), 1u, names, 300);
            }
        }
        for (auto &names : std::vector<std::vector<std::string>>{{"sum", "diff", "mul", "div"}, {"diff", "inv_sum", "gaussian"}, {"sin", "exp", "log", "diff"}, {"sum", "mul", "pdiv", "sqrt"}}) {
            one_set(shape(3, 2, 1, 3, 3, {2, 2, 2}, 1), 1u, names, 300);
            one_set(shape(2, 2, 2, 2, 3, {2, 3}, 1), 0u, names, 300);
            one_set(shape(3, 1, 1, 2, 3, {2, 2}, 1), 2u, names, t ? 20000 : 1500);
            one_set(shape(4, 2, 1, 2, 2, {2, 2}, 1), 2u, names, 300);
        }
        for (auto &s : ref::large(1u)) {
            if (s.r * s.c == 100u) { // the formulas of many rows are not linear in the number of nodes
                one_set(shape(12, 3, 1, 100, 101, uvec(100, 2u), 1), 11u, {"sum", "tanh", "diff"}, 0u, true);
                continue;
            }
            one_set(s, s.n > 11u ? 11u : 1u, {"sum", "tanh", "diff"}, 0u, true);
            one_set(s, 0u, {"sin", "cos", "sum", "ISRU"}, 0u, true);
        }
    });
}
