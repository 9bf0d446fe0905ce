// E03: the value of an expression is the composition of kernels its chromosome encodes (reference interpreter), for every
// chromosome of small shapes, in every numeric type; inactive genes never matter; evaluation does not change the object.
#include "common.hpp"
using namespace hc;

static const std::vector<std::vector<std::string>> SETS{
    {"sum", "diff", "mul"}, {"diff", "div"}, {"pdiv", "mul", "inv_sum"}, {"sin", "cos", "diff"}, {"exp", "gaussian", "sum"},
    {"sig", "tanh", "diff"}, {"ReLu", "ELU", "diff"}, {"ISRU", "abs", "step"}, {"sqrt", "psqrt", "log"}, {"sin_nu", "cos_nu", "gaussian_nu"},
    {"custom", "diff"}};

template <typename T>
static std::vector<kernel<T>> make(const std::vector<std::string> &names)
{
    std::vector<kernel<T>> r;
    for (auto &n : names) {
        if (n == "custom") {
            // a user kernel that depends on the position of every argument
            r.emplace_back(
                [](const std::vector<T> &v) {
                    T s(0.25);
                    for (std::size_t i = 0; i < v.size(); ++i) s = s * 3. + v[i] * (i + 1.);
                    return s;
                },
                [](const std::vector<std::string> &v) { return v[0]; }, "custom");
        } else {
            kernel_set<T> k({n});
            r.push_back(k[0]);
        }
    }
    return r;
}
static std::vector<ref::fun> make_ref(const std::vector<std::string> &names)
{
    std::vector<ref::fun> r;
    for (auto &n : names) {
        if (n == "custom") {
            r.push_back([](const dvec &v) {
                double s = 0.25;
                for (std::size_t i = 0; i < v.size(); ++i) s = s * 3. + v[i] * (i + 1.);
                return s;
            });
        } else
            r.push_back(ref::kernel_by_name(n));
    }
    return r;
}
static std::vector<dvec> points(unsigned n)
{
    static const double V[] = {0.5, -1.25, 2., 0., 3.5, -0.3};
    std::vector<dvec> p;
    for (unsigned k = 0; k < 4; ++k) {
        dvec q;
        for (unsigned i = 0; i < n; ++i) q.push_back(V[(k * 5 + i * (k + 1)) % 6]);
        p.push_back(q);
    }
    return p;
}

static void shape_values(const shape &s0, unsigned eph, const std::vector<std::string> &names, std::uint64_t cap, bool big = false)
{
    shape s(s0.n, s0.m, s0.r, s0.c, s0.l, s0.arity, static_cast<unsigned>(names.size()));
    if (!mc::begin("values " + s.str() + " eph" + std::to_string(eph) + " " + mc::str(names))) return;
    bool has_pdiv = std::find(names.begin(), names.end(), "pdiv") != names.end();
    expression<double> e(s.n - eph, s.m, s.r, s.c, s.l, s.arity, make<double>(names), eph, 5u);
    // the protected division does not exist for generalized dual numbers
    const auto gnames = has_pdiv ? std::vector<std::string>(names.size(), "sum") : names;
    expression<audi::gdual_d> g(s.n - eph, s.m, s.r, s.c, s.l, s.arity, make<audi::gdual_d>(gnames), eph, 5u);
    expression<audi::gdual_v> v(s.n - eph, s.m, s.r, s.c, s.l, s.arity, make<audi::gdual_v>(gnames), eph, 5u);
    auto rk = make_ref(names);
    auto pts = points(s.n);
    std::map<uvec, dvec> phen; // active part -> value, to see that inactive genes do not matter
    auto one = [&](const uvec &x) {
        ++mc::rep().states;
        mc::alive();
        e.set(x);
        std::vector<dvec> want;
        for (auto &p : pts) {
            ++mc::rep().transitions;
            dvec in(p.begin(), p.end() - eph), ev(p.end() - eph, p.end());
            e.set_eph_val(ev);
            want.push_back(s.eval(x, p, rk));
            auto got = e(in);
            mc::check(got.size() == s.m && mc::close(got, want.back()), "value", [&]() { return mc::str(x) + " at " + mc::str(p) + " = " + mc::str(got) + " expected " + mc::str(want.back()); });
            auto again = e(in);
            mc::check(mc::same_bits(got, again) && uvec(e.get()) == x && mc::same_bits(e.get_eph_val(), ev), "pure", [&]() { return mc::str(x) + " second evaluation differs"; });
            if (&p == &pts[0]) {
                uvec key;
                for (auto gi : e.get_active_genes()) {
                    key.push_back(gi);
                    key.push_back(x[gi]);
                }
                auto it = phen.find(key);
                if (it == phen.end()) phen[key] = got;
                else mc::check(mc::same_bits(it->second, got), "inactive-matters", [&]() { return mc::str(x) + " differs from a chromosome with the same active genes"; });
            }
            if (!has_pdiv) {
                g.set(x);
                std::vector<audi::gdual_d> gin, gev;
                for (auto q : in) gin.emplace_back(q);
                for (auto q : ev) gev.emplace_back(q);
                g.set_eph_val(gev);
                auto gg = g(gin);
                dvec gd;
                for (auto &q : gg) gd.push_back(q.constant_cf());
                mc::check(mc::close(gd, want.back()), "gdual-value", [&]() { return mc::str(x) + " at " + mc::str(p) + " = " + mc::str(gd) + " expected " + mc::str(want.back()); });
            }
        }
        if (!has_pdiv) {
            v.set(x);
            // the constants of the first point, all inputs at once
            dvec ev(pts[0].end() - eph, pts[0].end());
            std::vector<audi::gdual_v> vin, vev;
            for (unsigned i = 0; i < s.n - eph; ++i) {
                dvec col;
                for (auto &p : pts) col.push_back(p[i]);
                vin.emplace_back(col);
            }
            for (auto q : ev) vev.emplace_back(q);
            v.set_eph_val(vev);
            auto vv = v(vin);
            for (unsigned k = 0; k < pts.size(); ++k) {
                dvec p(pts[k]);
                for (unsigned i = 0; i < eph; ++i) p[s.n - eph + i] = ev[i];
                auto w = s.eval(x, p, rk);
                dvec got;
                for (auto &q : vv) got.push_back(q.constant_cf()[k]);
                mc::check(mc::close(got, w), "vectorized-value", [&]() { return mc::str(x) + " at " + mc::str(p) + " = " + mc::str(got) + " expected " + mc::str(w); });
            }
        }
        ++mc::rep().traces;
        mc::outcome(mc::str(want[0]));
    };
    if (big) {
        for (auto &x : ref::large_chromosomes(s, s.size() > 200u ? 17u : 5u)) one(x);
        mc::rep().counters["large shapes"]++;
    } else if (ref::all_chromosomes(s, cap, one)) {
        mc::rep().counters["shapes with every chromosome"]++;
    } else {
        for (auto &b : ref::bases(s)) ref::near_chromosomes(s, b, mc::rep().thorough ? 3u : 2u, one);
        mc::rep().counters["shapes with every chromosome within 2 genes (quick) or 3 (thorough) of the bases"]++;
    }
    for (unsigned k = 0; k <= s.n + 2u; ++k) {
        if (k == s.n - eph) continue;
        std::string o = mc::outcome_of([&]() { e(dvec(k, 0.5)); });
        mc::check(o == "invalid_argument", "input-size", [&]() { return std::to_string(k) + " inputs -> '" + o + "'"; });
        o = mc::outcome_of([&]() { e(std::vector<std::string>(k, "x")); });
        mc::check(o == "invalid_argument", "input-size", [&]() { return std::to_string(k) + " symbols -> '" + o + "'"; });
    }
    if (s.n - eph == 1u) mc::check(mc::same_bits(e({0.5}), e(dvec{0.5})), "init-list", []() { return std::string("initializer list differs"); });
    if (s.n - eph == 2u) mc::check(mc::same_bits(e({0.5, -1.}), e(dvec{0.5, -1.})), "init-list", []() { return std::string("initializer list differs"); });
}

int main(int argc, char **argv)
{
    return mc::main(argc, argv, []() {
        bool t = mc::rep().thorough;
        std::uint64_t cap = t ? 100000 : 400;
        std::vector<std::pair<shape, unsigned>> v{
            {shape(1, 1, 1, 2, 2, {2, 2}, 1), 0u}, {shape(2, 1, 1, 2, 3, {2, 1}, 1), 0u}, {shape(2, 2, 1, 2, 2, {1, 3}, 1), 1u}, {shape(3, 1, 2, 1, 2, {2}, 1), 2u},
            {shape(2, 2, 2, 2, 3, {2, 2}, 1), 0u}, {shape(2, 1, 1, 3, 1, {2, 2, 1}, 1), 1u}, {shape(2, 1, 2, 3, 2, {1, 2, 2}, 1), 1u}};
        for (auto &names : SETS) {
            bool pd = names[0] == "pdiv";
            for (auto &p : v) {
                shape s = p.first;
                if (pd) // protected division needs at least two inputs
                    for (auto &a : s.arity) a = std::max(a, 2u);
                shape q(s.n, s.m, s.r, s.c, s.l, s.arity, 1);
                shape_values(q, p.second, names, cap);
            }
        }
        // deep chains: every l, long single rows
        for (unsigned l = 1; l <= 6; ++l) shape_values(shape(2, 2, 1, 6, l, {2, 1, 2, 1, 2, 1}, 1), 1u, {"sum", "diff"}, cap);
        shape_values(shape(3, 3, 3, 4, 2, {2, 3, 1, 2}, 1), 1u, {"sum", "mul", "diff"}, cap);
        for (auto &s : ref::large(1u)) {
            const unsigned eph = s.n > 11u ? 11u : 1u;
            shape_values(s, eph, {"sum", "tanh", "diff"}, cap, true);
            shape_values(s, 0u, {"sin", "cos", "sum", "ISRU"}, cap, true);
        }
        // all kernels in one set
        std::vector<std::string> every(ref::kernel_names());
        every.erase(std::find(every.begin(), every.end(), "pdiv"));
        shape_values(shape(2, 2, 1, 2, 3, {2, 2}, 1), 0u, every, cap, true);
        shape_values(shape(3, 1, 2, 2, 3, {3, 1}, 1), 1u, every, cap, true);
        mc::sample("every chromosome of n2m1r1c2l3a21 over {sum,diff,mul} evaluated at 4 points in 3 numeric types against the reference interpreter");
    });
}
