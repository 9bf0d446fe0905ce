// E07: everything random is a function of the seed: equal construction and operations give equal objects, whatever happens
// in between; copies continue like the original and independently of it; seed(s) determines the future; objects with an
// explicit seed do not consume the global sequence.
#include "common.hpp"
#include <dcgp/expression_ann.hpp>
#include <dcgp/expression_weighted.hpp>
using namespace hc;
using dcgp::expression_ann;
using dcgp::expression_weighted;

template <typename Ex>
struct traits {
    static void extra(const Ex &, std::string &) {}
    template <typename O>
    static void ops(O &) {}
};
template <typename T>
struct traits<expression_weighted<T>> {
    static void extra(const expression_weighted<T> &e, std::string &s)
    {
        s += mc::str(e.get_weights());
    }
    template <typename O>
    static void ops(O &) {}
};
template <>
struct traits<expression_ann> {
    static void extra(const expression_ann &e, std::string &s)
    {
        s += mc::str(e.get_weights()) + mc::str(e.get_biases());
    }
    template <typename O>
    static void ops(O &o)
    {
        o.push_back({"weights(3)", [](expression_ann &e) { e.randomise_weights(0.25, 1.5, 3u); }});
        o.push_back({"biases(4)", [](expression_ann &e) { e.randomise_biases(-1., 0.5, 4u); }});
    }
};
inline std::string num(double v)
{
    return mc::str(v);
}
template <typename T>
std::string num(const T &v)
{
    return mc::str(v.constant_cf());
}
template <typename Ex, typename T>
std::string finger(const Ex &e)
{
    std::string s = mc::str(e.get()) + mc::str(e.get_active_nodes()) + mc::str(e.get_active_genes()) + mc::str(e.get_lb()) + mc::str(e.get_ub()) + mc::str(e.get_arity()) + std::to_string(e.get_l());
    std::vector<T> p;
    for (unsigned i = 0; i < e.get_n() - e.get_eph_val().size(); ++i) p.push_back(T(0.3 + 0.4 * i));
    for (auto &v : e.get_eph_val()) s += num(v) + ",";
    for (auto &v : e.get_eph_symb()) s += v + ",";
    for (auto &k : e.get_f()) s += k.get_name() + ",";
    for (auto &v : e(p)) s += num(v) + ";";
    traits<Ex>::extra(e, s);
    return s;
}
template <typename Ex>
struct op {
    std::string name;
    std::function<void(Ex &)> run;
};
template <typename Ex>
std::vector<op<Ex>> ops()
{
    std::vector<op<Ex>> o{{"mutate(0)", [](Ex &e) { e.mutate(0u); }},
            {"mutate(last,0)", [](Ex &e) { e.mutate(std::vector<unsigned>{static_cast<unsigned>(e.get().size()) - 1u, 0u}); }},
            {"random(2)", [](Ex &e) { e.mutate_random(2u); }},
            {"inactive(3)", [](Ex &e) { e.mutate_inactive(3u); }},
            {"active(2)", [](Ex &e) { e.mutate_active(2u); }},
            {"fgene", [](Ex &e) { e.mutate_active_fgene(1u); }},
            {"cgene", [](Ex &e) { e.mutate_active_cgene(1u); }},
            {"ogene", [](Ex &e) { e.mutate_ogene(1u); }},
            {"seed(5)", [](Ex &e) { e.seed(5); }}};
    traits<Ex>::ops(o);
    return o;
}
// something else happening in the same process
static void noise(unsigned k)
{
    expression<double> o(2u, 1u, 2u, 2u, 2u, 2u, kernels({"sum", "mul"}), 1u);
    o.mutate_random(k + 1u);
    if (k % 2u) dcgp::random_device::next();
    else dcgp::random_device::set_seed(k);
}

template <typename Ex, typename T>
void explore(const std::string &type, const std::function<Ex(unsigned)> &make, const Ex &other, unsigned depth)
{
    const auto O = ops<Ex>();
    for (unsigned seed : {0u, 7u, 4294967295u}) {
        for (unsigned first = 0; first < O.size(); ++first) {
            if (!mc::begin(type + " seed " + std::to_string(seed) + " first " + O[first].name)) continue;
            mc::rep().states += 1;
            std::vector<unsigned> dims(depth - 1u, static_cast<unsigned>(O.size()));
            mc::product(dims, [&](const uvec &rest) {
                uvec seq{first};
                seq.insert(seq.end(), rest.begin(), rest.end());
                mc::alive();
                auto show = [&]() { std::string s; for (auto i : seq) s += O[i].name + " "; return s; };
                dcgp::random_device::set_seed(991u);
                // the run of reference, undisturbed
                Ex a = make(seed);
                std::vector<std::string> f{finger<Ex, T>(a)};
                std::vector<Ex> snap{a};
                for (auto i : seq) {
                    O[i].run(a);
                    f.push_back(finger<Ex, T>(a));
                    snap.push_back(a);
                }
                ++mc::rep().traces;
                mc::rep().transitions += seq.size();
                mc::check(dcgp::random_device::next() == static_cast<unsigned>(std::mt19937(991u)()), "global", [&]() { return "an object with its own seed consumed the global sequence: " + show(); });
                // the same run, with other activity in between
                {
                    noise(seed % 5u);
                    Ex b = make(seed);
                    bool ok = finger<Ex, T>(b) == f[0];
                    for (unsigned k = 0; k < seq.size() && ok; ++k) {
                        noise(k);
                        O[seq[k]].run(b);
                        ok = finger<Ex, T>(b) == f[k + 1u];
                    }
                    mc::check(ok, "twin", [&]() { return show(); });
                    mc::rep().transitions += seq.size();
                }
                // a copy taken anywhere continues like the original, and neither disturbs the other
                for (unsigned k = 0; k < seq.size(); ++k) {
                    for (unsigned how = 0; how < 4u; ++how) {
                        Ex src(snap[k]);
                        Ex c(how == 0u ? src : other);
                        if (how == 1u) c = src;
                        if (how == 2u) { Ex t(src); c = std::move(t); }
                        if (how == 3u) { Ex t(src); Ex u(std::move(t)); c = u; }
                        bool ok = finger<Ex, T>(c) == f[k];
                        for (unsigned j = k; j < seq.size() && ok; ++j) {
                            O[seq[j]].run(c);
                            ok = finger<Ex, T>(c) == f[j + 1u];
                        }
                        mc::check(ok, "copy", [&]() { return show() + "copied (" + std::to_string(how) + ") after " + std::to_string(k); });
                        ok = finger<Ex, T>(src) == f[k];
                        for (unsigned j = k; j < seq.size() && ok; ++j) {
                            O[seq[j]].run(src);
                            ok = finger<Ex, T>(src) == f[j + 1u];
                        }
                        mc::check(ok, "original", [&]() { return show() + "copied (" + std::to_string(how) + ") after " + std::to_string(k); });
                        mc::rep().transitions += 2u * (seq.size() - k);
                    }
                    // after seed(s) the future depends on s and the state only, not on the random past
                    Ex p(snap[k]), q(snap[k]);
                    q.mutate_random(k + 1u);
                    q.seed(static_cast<long>(k));
                    q.set(p.get());
                    p.seed(77);
                    q.seed(77);
                    bool ok = true;
                    for (unsigned j = k; j < seq.size() && ok; ++j) {
                        O[seq[j]].run(p);
                        O[seq[j]].run(q);
                        ok = finger<Ex, T>(p) == finger<Ex, T>(q);
                    }
                    mc::check(ok, "seed", [&]() { return show() + "re-seeded after " + std::to_string(k); });
                    mc::rep().transitions += 2u * (seq.size() - k);
                }
            });
        }
    }
}
// default seeds come from the global sequence: setting its seed makes whole programs repeatable
template <typename Ex, typename T>
void defaults(const std::string &type, const std::function<Ex()> &make)
{
    for (unsigned seed = 0; seed < 40u; ++seed) {
        if (!mc::begin(type + " default seed " + std::to_string(seed))) continue;
        std::string first;
        std::set<std::string> distinct;
        for (unsigned pass = 0; pass < 3u; ++pass) {
            dcgp::random_device::set_seed(seed);
            std::string s;
            for (unsigned k = 0; k < 4u; ++k) {
                Ex e = make();
                e.mutate_random(2u);
                auto g = finger<Ex, T>(e);
                if (pass == 0u) distinct.insert(g);
                s += g;
            }
            if (pass == 0u) first = s;
            mc::check(s == first, "global-seed", [&]() { return "pass " + std::to_string(pass); });
            mc::rep().transitions += 4u;
        }
        mc::check(distinct.size() > 1u, "global-seed", [&]() { return std::string("four default-seeded objects are identical"); });
        ++mc::rep().states;
        ++mc::rep().traces;
    }
}
template <typename T>
std::vector<std::string> names()
{
    return {"sum", "mul", "diff"};
}

int main(int argc, char **argv)
{
    return mc::main(argc, argv, []() {
        const unsigned d = mc::rep().thorough ? 4u : 3u;
        using E = expression<double>;
        using W = expression_weighted<double>;
        using G = expression<audi::gdual_d>;
        using A = expression_ann;
        const std::vector<std::string> k3{"sum", "mul", "diff"}, a3{"sum", "tanh", "sig"};
        explore<E, double>("expression 2,1,2,3", [&](unsigned s) { return E(2u, 1u, 2u, 3u, 2u, 2u, kernels(k3), 1u, s); }, E(1u, 1u, 1u, 1u, 1u, 1u, kernels({"sum"}), 0u, 1u), d);
        explore<E, double>("expression 1,2,3,2 arities", [&](unsigned s) { return E(1u, 2u, 3u, 2u, 3u, uvec{3u, 1u}, kernels(k3), 2u, s); }, E(1u, 1u, 1u, 1u, 1u, 1u, kernels({"sum"}), 0u, 1u), d);
        explore<W, double>("weighted", [&](unsigned s) { W w(2u, 1u, 2u, 2u, 3u, uvec{2u, 1u}, kernels(k3), s); for (unsigned i = 0; i < 2u; ++i) w.set_weight(3u, i, 0.5 + i); return w; }, W(1u, 1u, 1u, 1u, 1u, 1u, kernels({"sum"}), 1u), d);
        explore<A, double>("ann", [&](unsigned s) { A a(2u, 2u, 1u, 3u, 1u, uvec{2u, 3u, 2u}, kernels(a3), s); a.randomise_weights(0., 1., s); a.randomise_biases(0., 1., s); return a; }, A(1u, 1u, 1u, 1u, 1u, 1u, kernels({"sum"}), 1u), d);
        explore<G, audi::gdual_d>("gdual", [&](unsigned s) { return G(2u, 1u, 1u, 3u, 4u, 2u, kernels<audi::gdual_d>(k3), 1u, s); }, G(1u, 1u, 1u, 1u, 1u, 1u, kernels<audi::gdual_d>({"sum"}), 0u, 1u), d);
        defaults<E, double>("expression", [&]() { return E(2u, 1u, 2u, 3u, 2u, 2u, kernels(k3), 1u); });
        defaults<E, double>("expression arities", [&]() { return E(2u, 1u, 2u, 2u, 2u, uvec{1u, 2u}, kernels(k3), 1u); });
        defaults<W, double>("weighted", [&]() { return W(2u, 1u, 2u, 3u, 2u, 2u, kernels(k3)); });
        defaults<A, double>("ann", [&]() { A a(2u, 1u, 2u, 3u, 2u, 2u, kernels(a3)); return a; });
        // large objects
        {
            const auto L = ref::large(3u);
            for (unsigned i : {0u, 2u, 3u, 4u}) {
                const shape &s = L[i];
                const unsigned eph = s.n > 11u ? 11u : 1u;
                explore<E, double>("large expression " + s.str(), [&](unsigned q) { return E(s.n - eph, s.m, s.r, s.c, s.l, s.arity, kernels(k3), eph, q); }, E(1u, 1u, 1u, 1u, 1u, 1u, kernels({"sum"}), 0u, 1u), i == 3u ? 2u : 1u);
                explore<A, double>("large ann " + s.str(), [&](unsigned q) { A a(s.n, s.m, s.r, s.c, s.l, s.arity, kernels(a3), q); a.randomise_weights(0., 1., q); a.randomise_biases(0., 1., q); return a; }, A(1u, 1u, 1u, 1u, 1u, 1u, kernels({"sum"}), 1u), i == 3u ? 2u : 1u);
            }
        }
        // initial weights by seed
        for (unsigned s = 0; s < 60u; ++s) {
            const unsigned rows = 1u + s % 3u, cols = 1u + s / 3u % 3u, ar = 1u + s / 9u % 3u; // odd and even numbers of weights
            if (!mc::begin("ann weights by seed " + std::to_string(s))) continue;
            A a(2u, 1u, rows, cols, 2u, ar, kernels(a3), 1u), b(2u, 1u, rows, cols, 2u, ar, kernels(a3), 2u), c(a);
            a.randomise_weights(0.5, 2., s);
            noise(s);
            b.randomise_weights(0.5, 2., s);
            c.randomise_weights(0.5, 2., s + 1u);
            a.randomise_biases(-1., 0.1, s);
            b.randomise_biases(-1., 0.1, s);
            mc::check(a.get_weights() == b.get_weights() && a.get_biases() == b.get_biases() && a.get_weights() != c.get_weights(), "weights", [&]() { return std::to_string(s); });
            ++mc::rep().states;
            mc::rep().transitions += 5u;
            ++mc::rep().traces;
        }
    });
}
