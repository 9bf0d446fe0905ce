// Artificial neural networks encoded as CGP.
// A01 (MODE 1): structure, values, formulas, addressing of weights and biases, output nonlinearities, number of weights.
// A02 (MODE 2): d_loss returns the loss and its exact gradient, through every history of changes.
#include "common.hpp"
#include "net.hpp"
#include <dcgp/expression_ann.hpp>
using namespace hc;
using A = dcgp::expression_ann;
using dmat = std::vector<dvec>;
using ref::net;
using lt = expression<double>::loss_type;

static dvec weights(unsigned k, unsigned n)
{
    dvec w;
    for (unsigned i = 0; i < n; ++i) w.push_back(k == 0u ? 1. : k == 1u ? 0.5 + 0.25 * (i % 7u) - 0.75 * (i % 3u) : (i % 2u ? -1.25 + 0.0625 * (i % 9u) : 0.));
    return w;
}
static dvec biases(unsigned k, unsigned n)
{
    dvec b;
    for (unsigned i = 0; i < n; ++i) b.push_back(k == 0u ? 0. : k == 1u ? 0.3 - 0.2 * (i % 5u) : -0.45 + 0.35 * (i % 4u));
    return b;
}
static dvec point(unsigned k, unsigned n)
{
    dvec p;
    for (unsigned i = 0; i < n; ++i) p.push_back(k == 0u ? 0.3 + 0.45 * i : k == 1u ? -1.2 + 0.7 * i : 0.);
    return p;
}
static A make(const net &t, unsigned seed = 1u)
{
    A e(t.s.n, t.s.m, t.s.r, t.s.c, t.s.l, t.s.arity, kernels(t.k), seed);
    return e;
}
static std::string names(const std::vector<std::string> &k)
{
    std::string s;
    for (auto &q : k) s += q + ",";
    return s;
}
static std::string wrong(const A &e, net &t, bool symbolic = true)
{
    const auto &s = t.s;
    if (uvec(e.get().begin(), e.get().end()) != t.x) return "chromosome is " + mc::str(e.get()) + " instead of " + mc::str(t.x);
    auto c = inconsistent(e, s);
    if (!c.empty()) return c;
    if (dvec(e.get_weights()) != t.w) return "weights are " + mc::str(e.get_weights()) + " instead of " + mc::str(t.w);
    if (dvec(e.get_biases()) != t.b) return "biases are " + mc::str(e.get_biases()) + " instead of " + mc::str(t.b);
    unsigned all = 0, uniq = 0;
    for (auto node : s.active(t.x).first) {
        if (node < s.n) continue;
        std::set<unsigned> u;
        for (unsigned j = 0; j < s.ar(node); ++j) u.insert(t.x[s.gene(node) + 1u + j]);
        all += s.ar(node);
        uniq += static_cast<unsigned>(u.size());
    }
    if (e.n_active_weights() != all || e.n_active_weights(false) != all) return "n_active_weights is " + std::to_string(e.n_active_weights()) + " instead of " + std::to_string(all);
    if (e.n_active_weights(true) != uniq) return "n_active_weights(true) is " + std::to_string(e.n_active_weights(true)) + " instead of " + std::to_string(uniq);
    std::vector<std::string> in;
    for (unsigned i = 0; i < s.n; ++i) in.push_back("x" + std::to_string(i));
    std::vector<std::string> sy;
    if (symbolic) sy = e(in);
    const expression<double> &base = e;
    for (unsigned k = 0; k < 3u; ++k) {
        const auto p = point(k, s.n);
        const auto want = t.eval(p), got = e(p), got2 = base(p);
        if (!mc::close(got, want, 1e-11, 1e-12)) return "value at " + mc::str(p) + " is " + mc::str(got) + " instead of " + mc::str(want);
        if (!mc::same_bits(got, got2)) return "value through the base class differs";
        if (!symbolic) continue;
        std::map<std::string, double> env;
        for (unsigned i = 0; i < s.n; ++i) env[in[i]] = p[i];
        for (unsigned node = s.n; node < s.nodes(); ++node) {
            for (unsigned j = 0; j < s.ar(node); ++j) env["w" + std::to_string(node) + "_" + std::to_string(j)] = t.w[ref::first_weight(s, node) + j];
            env["b" + std::to_string(node)] = t.b[node - s.n];
        }
        if (sy.size() != s.m) return "number of formulas";
        for (unsigned o = 0; o < s.m; ++o) {
            double v = 0;
            try {
                v = symb::eval(sy[o], env);
            } catch (const std::exception &q) {
                return std::string("formula ") + sy[o] + ": " + q.what();
            }
            if (!mc::close(v, want[o], 1e-8, 1e-9)) return "formula " + sy[o] + " is " + mc::str(v) + " at " + mc::str(p) + " instead of " + mc::str(want[o]);
        }
    }
    return "";
}
// a step at a kink (step, ReLu, abs at exactly 0) may round differently: only the value of smooth points is compared there
static bool kinky(net t)
{
    for (unsigned k = 0; k < 3u; ++k) t.eval(point(k, t.s.n));
    return t.kink;
}
static void addressing(A &e, net &t)
{
    const auto &s = t.s;
    std::vector<unsigned> ids, js;
    for (unsigned i = 0; i < s.nodes() + s.m + 2u; ++i) ids.push_back(i);
    ids.push_back(~0u);
    for (unsigned j = 0; j < 5u; ++j) js.push_back(j);
    js.push_back(~0u);
    for (auto id : ids)
        for (auto j : js) {
            const bool ok = id >= s.n && id < s.nodes() && j < s.ar(id);
            const double v = 0.5 + 0.125 * (id % 8u) - 0.0625 * (j % 8u);
            auto o = mc::outcome_of([&]() { e.set_weight(id, j, v); });
            if (ok) t.w[ref::first_weight(s, id) + j] = v;
            mc::check(o == (ok ? "" : "invalid_argument"), "set_weight", [&]() { return s.str() + " (" + std::to_string(id) + "," + std::to_string(j) + "): '" + o + "'"; });
            double r = 0;
            o = mc::outcome_of([&]() { r = e.get_weight(id, j); });
            mc::check(o == (ok ? "" : "invalid_argument") && (!ok || r == v), "get_weight", [&]() { return s.str() + " (" + std::to_string(id) + "," + std::to_string(j) + "): '" + o + "' " + mc::str(r); });
            mc::check(dvec(e.get_weights()) == t.w && dvec(e.get_biases()) == t.b, "addressing", [&]() { return mc::str(e.get_weights()) + " instead of " + mc::str(t.w); });
            ++mc::rep().transitions;
        }
    for (std::size_t i = 0; i < t.w.size(); ++i) {
        t.w[i] = -0.5 + 0.25 * static_cast<double>(i % 5u);
        e.set_weight(i, t.w[i]);
        mc::check(e.get_weight(i) == t.w[i] && dvec(e.get_weights()) == t.w, "set_weight-index", [&]() { return std::to_string(i); });
    }
    for (std::size_t i = 0; i < t.b.size(); ++i) {
        t.b[i] = 0.75 - 0.25 * static_cast<double>(i % 5u);
        e.set_bias(i, t.b[i]);
        mc::check(e.get_bias(i) == t.b[i] && dvec(e.get_biases()) == t.b && dvec(e.get_weights()) == t.w, "set_bias", [&]() { return std::to_string(i); });
    }
    // indices that do not exist
    for (std::size_t far : {std::size_t(0), std::size_t(1), std::size_t(7), std::size_t(1) << 32}) {
        double r = 0.;
        auto bad = [&](const char *what, std::size_t i, std::function<void()> f) {
            auto o = mc::outcome_of(f);
            mc::check(o == "invalid_argument" && dvec(e.get_weights()) == t.w && dvec(e.get_biases()) == t.b, "index-out-of-range", [&]() { return std::string(what) + " " + std::to_string(i) + ": '" + o + "'"; });
        };
        const auto iw = t.w.size() + far, ib = t.b.size() + far;
        bad("set_weight", iw, [&]() { e.set_weight(iw, 3.); });
        bad("get_weight", iw, [&]() { r = e.get_weight(iw); });
        bad("set_bias", ib, [&]() { e.set_bias(ib, 3.); });
        bad("get_bias", ib, [&]() { r = e.get_bias(ib); });
    }
    for (unsigned n = 0; n < t.w.size() + 3u; ++n) {
        if (n == t.w.size()) continue;
        auto o = mc::outcome_of([&]() { e.set_weights(dvec(n, 5.)); });
        mc::check(o == "invalid_argument", "set_weights", [&]() { return std::to_string(n) + " weights: '" + o + "'"; });
    }
    for (unsigned n = 0; n < t.b.size() + 3u; ++n) {
        if (n == t.b.size()) continue;
        auto o = mc::outcome_of([&]() { e.set_biases(dvec(n, 5.)); });
        mc::check(o == "invalid_argument", "set_biases", [&]() { return std::to_string(n) + " biases: '" + o + "'"; });
    }
    for (unsigned n = 0; n < s.n + 3u; ++n) {
        if (n == s.n) continue;
        auto o = mc::outcome_of([&]() { e(dvec(n, 5.)); });
        auto o2 = mc::outcome_of([&]() { e(std::vector<std::string>(n, "x")); });
        mc::check(o == "invalid_argument" && o2 == o, "input-size", [&]() { return std::to_string(n) + " inputs: '" + o + "' '" + o2 + "'"; });
    }
    // randomisation with (almost) no spread gives the mean, and touches nothing else
    {
        A c(e);
        c.randomise_weights(0.25, 1e-13, 3u);
        mc::check(mc::close(c.get_weights(), dvec(t.w.size(), 0.25)) && dvec(c.get_biases()) == t.b, "randomise_weights", [&]() { return mc::str(c.get_weights()); });
        A d(e);
        d.randomise_biases(-0.25, 1e-13, 3u);
        mc::check(mc::close(d.get_biases(), dvec(t.b.size(), -0.25)) && dvec(d.get_weights()) == t.w, "randomise_biases", [&]() { return mc::str(d.get_biases()); });
        A g(e), h(e);
        g.randomise_weights(0., 1., 11u);
        h.randomise_weights(3., 2., 11u); // the same draws, shifted and scaled
        for (std::size_t i = 0; i < t.w.size(); ++i) mc::check(mc::close(h.get_weight(i), 3. + 2. * g.get_weight(i)), "randomise-scale", [&]() { return mc::str(g.get_weights()) + mc::str(h.get_weights()); });
    }
    auto q = wrong(e, t, !kinky(t));
    mc::check(q.empty() || kinky(t), "after-addressing", [&]() { return s.str() + ": " + q; });
}
static void output_f(const net &t)
{
    std::vector<std::string> N(ref::kernel_names());
    for (auto &q : {"", "tan", "tanhh", "Tanh", "relu", "sum ", "sigmoid"}) N.push_back(q);
    for (auto &name : N) {
        A e(make(t));
        net u(t);
        e.set(u.x);
        e.set_weights(u.w);
        e.set_biases(u.b);
        auto it = std::find(u.k.begin(), u.k.end(), name);
        bool in_output = false;
        for (unsigned o = 0; o < u.s.m; ++o) in_output = in_output || u.x[u.s.size() - u.s.m + o] < u.s.n;
        auto o = mc::outcome_of([&]() { e.set_output_f(name); });
        ++mc::rep().transitions;
        if (it == u.k.end()) {
            mc::check(o == "invalid_argument", "set_output_f", [&]() { return "'" + name + "' in " + names(u.k) + ": '" + o + "'"; });
        } else if (o.empty()) {
            for (unsigned i = 0; i < u.s.m; ++i) {
                auto node = u.x[u.s.size() - u.s.m + i];
                if (node >= u.s.n) u.x[u.s.gene(node)] = static_cast<unsigned>(it - u.k.begin());
            }
        } else {
            mc::check(in_output && o == "invalid_argument", "set_output_f", [&]() { return "'" + name + "' in " + names(u.k) + " of " + mc::str(u.x) + ": '" + o + "'"; });
        }
        auto q = kinky(u) ? std::string() : wrong(e, u);
        mc::check(q.empty() && uvec(e.get().begin(), e.get().end()) == u.x, "after-set_output_f", [&]() { return "'" + name + "' of " + mc::str(t.x) + ": " + q + " now " + mc::str(e.get()); });
    }
}
static void structure(const shape &s, const std::vector<std::string> &ks, unsigned cap, bool scalar = false, bool big = false)
{
    if (!mc::begin((scalar ? "network u " : "network ") + s.str() + " " + names(ks))) return;
    net t{s, ks, {}, dvec(ref::n_weights(s), 1.), dvec(s.r * s.c, 0.)};
    bool uniform = true;
    for (auto a : s.arity) uniform = uniform && a == s.arity[0];
    {
        // defaults; same chromosome as the plain expression of that seed
        expression<double> plain(s.n, s.m, s.r, s.c, s.l, s.arity, kernels(ks), 0u, 3u);
        t.x = uvec(plain.get());
        A d(make(t, 3u));
        auto q = kinky(t) ? std::string() : wrong(d, t, !big);
        mc::check(q.empty(), "default", [&]() { return q; });
        if (uniform) {
            A u(s.n, s.m, s.r, s.c, s.l, s.arity[0], kernels(ks), 3u);
            q = kinky(t) ? std::string() : wrong(u, t, !big);
            mc::check(q.empty(), "default-uniform", [&]() { return q; });
        }
    }
    A e(scalar ? A(s.n, s.m, s.r, s.c, s.l, s.arity[0], kernels(ks), 1u) : make(t));
    unsigned count = 0;
    auto body = [&](const uvec &x) {
        mc::alive();
        e.set(x);
        t.x = x;
        ++mc::rep().states;
        for (unsigned k = 0; k < 3u; ++k) {
            t.w = weights(k, ref::n_weights(s));
            t.b = biases(k, s.r * s.c);
            e.set_weights(t.w);
            e.set_biases(t.b);
            t.kink = false;
            ++mc::rep().transitions;
            if (kinky(t)) continue;
            auto q = wrong(e, t);
            mc::check(q.empty(), "value", [&]() { return mc::str(x) + " weights " + mc::str(t.w) + " biases " + mc::str(t.b) + ": " + q; });
        }
        if (count % 100u == 0u) addressing(e, t);
        if (count % (big ? 50u : 10u) == 0u) output_f(t);
        ++count;
        ++mc::rep().traces;
    };
    if (big) {
        for (auto &x : ref::large_chromosomes(s, s.size() > 100u ? 41u : 11u, true)) body(x);
        mc::rep().counters["large shapes"]++;
        return;
    }
    if (ref::all_chromosomes(s, cap, body)) return;
    for (auto &b : ref::bases(s)) ref::near_chromosomes(s, b, mc::rep().thorough ? 2u : 1u, body);
    mc::rep().exhaustive = false;
}
// which kernels a network accepts
static void accepted()
{
    std::vector<kernel<double>> K;
    for (auto &n : ref::kernel_names()) K.push_back(kernel_set<double>({n})()[0]);
    const auto &ok = ref::net_kernels();
    for (unsigned a = 0; a < K.size(); ++a)
        for (unsigned b = 0; b < K.size() + 1u; ++b)
            for (unsigned c = 0; c < (b < K.size() ? 2u : 1u); ++c) {
                if (!mc::begin("accepted " + std::to_string(a) + " " + std::to_string(b) + " " + std::to_string(c))) continue;
                std::vector<kernel<double>> f{K[a]};
                bool want = std::count(ok.begin(), ok.end(), K[a].get_name()) > 0;
                if (b < K.size()) {
                    f.push_back(K[b]);
                    want = want && std::count(ok.begin(), ok.end(), K[b].get_name()) > 0;
                }
                if (c) f.push_back(K[8]);
                for (unsigned u = 0; u < 2u; ++u) {
                    auto o = mc::outcome_of([&]() { u ? A(1u, 1u, 1u, 1u, 1u, 2u, f, 1u) : A(1u, 1u, 1u, 1u, 1u, uvec{2u}, f, 1u); });
                    mc::check(o == (want ? "" : "invalid_argument"), "accepted", [&]() { return K[a].get_name() + "," + (b < K.size() ? K[b].get_name() : "") + ": '" + o + "'"; });
                    ++mc::rep().transitions;
                }
                ++mc::rep().states;
            }
}
static const std::vector<std::vector<std::string>> KS{{"tanh", "sig"}, {"ReLu", "ELU"}, {"ISRU", "sum"}, {"sin_nu", "cos_nu"}, {"gaussian_nu", "inv_sum"}, {"abs", "step"}, {"sum", "tanh"}, {"cos_nu", "ISRU"}};
static std::vector<shape> shapes_()
{
    return {{1, 1, 1, 1, 1, {1}, 2}, {2, 1, 1, 1, 1, {3}, 2}, {1, 1, 2, 1, 1, {2}, 2}, {2, 2, 1, 2, 2, {1, 2}, 2}, {1, 2, 2, 2, 3, {2, 1}, 2}, {2, 1, 2, 2, 1, {1, 3}, 2}, {2, 2, 3, 2, 3, {2, 3}, 2}, {1, 3, 1, 3, 4, {2, 1, 2}, 2}, {1, 1, 2, 3, 2, {3, 1, 2}, 2}};
}
// ---------------------------------------------------------------- gradients
static std::string gradient(const A &ce, net &t, const dmat &P, const dmat &L, bool CE, unsigned par)
{
    A &e = const_cast<A &>(ce);
    dvec g;
    t.kink = false;
    const double want = t.batch(P, L, CE, g);
    const auto r = e.d_loss(P, L, CE ? lt::CE : lt::MSE, par);
    if (!mc::close(std::get<0>(r), want, 1e-9, 1e-10)) return "loss " + mc::str(std::get<0>(r)) + " instead of " + mc::str(want);
    if (std::get<1>(r).size() != t.w.size() || std::get<2>(r).size() != t.b.size()) return "sizes of the gradient";
    if (t.kink) return "";
    const dvec gw(g.begin(), g.begin() + static_cast<long>(t.w.size())), gb(g.begin() + static_cast<long>(t.w.size()), g.end());
    if (!mc::close(std::get<1>(r), gw, 1e-8, 1e-9)) return "weight gradient " + mc::str(std::get<1>(r)) + " instead of " + mc::str(gw);
    if (!mc::close(std::get<2>(r), gb, 1e-8, 1e-9)) return "bias gradient " + mc::str(std::get<2>(r)) + " instead of " + mc::str(gb);
    const auto &act = t.s.active(t.x).first;
    for (unsigned node = t.s.n; node < t.s.nodes(); ++node) {
        if (std::binary_search(act.begin(), act.end(), node)) continue;
        for (unsigned j = 0; j < t.s.ar(node); ++j)
            if (std::get<1>(r)[ref::first_weight(t.s, node) + j] != 0.) return "an inactive weight has a gradient";
        if (std::get<2>(r)[node - t.s.n] != 0.) return "an inactive bias has a gradient";
    }
    return "";
}
static void data(unsigned k, unsigned n, unsigned m, unsigned size, bool CE, dmat &P, dmat &L)
{
    P.clear();
    L.clear();
    for (unsigned i = 0; i < size; ++i) {
        dvec p, y;
        for (unsigned j = 0; j < n; ++j) p.push_back(-0.9 + 0.35 * ((i * 3u + j * 2u + k) % 6u));
        if (CE) {
            y.assign(m, (i + k) % 3u == 2u ? 1. / m : 0.);
            if ((i + k) % 3u != 2u) y[(i + k) % m] = 1.;
        } else {
            for (unsigned j = 0; j < m; ++j) y.push_back(0.6 - 0.5 * ((i + j + k) % 3u));
        }
        P.push_back(p);
        L.push_back(y);
    }
}
static void gradients(const shape &s, const std::vector<std::string> &ks, unsigned cap, bool uniform = false, bool big = false)
{
    if (!mc::begin((uniform ? "gradient u " : "gradient ") + s.str() + " " + names(ks))) return;
    net t{s, ks, {}, {}, {}};
    A e(uniform ? A(s.n, s.m, s.r, s.c, s.l, s.arity[0], kernels(ks), 1u) : A(s.n, s.m, s.r, s.c, s.l, s.arity, kernels(ks), 1u));
    unsigned count = 0;
    auto body = [&](const uvec &x) {
        mc::alive();
        e.set(x);
        t.x = x;
        ++mc::rep().states;
        for (unsigned k = 0; k < 3u; ++k) {
            t.w = weights(k, ref::n_weights(s));
            t.b = biases(k, s.r * s.c);
            e.set_weights(t.w);
            e.set_biases(t.b);
            for (unsigned ce = 0; ce < 2u; ++ce) {
                const unsigned size = big ? 66u : count % 17u == 0u ? 4u : 1u + count % 2u;
                dmat P, L;
                data(count + k, s.n, s.m, size, ce, P, L);
                for (unsigned par = 0; par <= (big ? (count % 5u ? 2u : 66u) : count % 17u == 0u ? 4u : 0u); ++par) {
                    if (par && size % par) continue;
                    auto q = gradient(e, t, P, L, ce, par);
                    mc::check(q.empty(), "gradient", [&]() { return mc::str(x) + " w " + mc::str(t.w) + " b " + mc::str(t.b) + (ce ? " CE " : " MSE ") + "batch " + std::to_string(size) + " parts " + std::to_string(par) + ": " + q; });
                    ++mc::rep().transitions;
                }
            }
        }
        // all inputs zero, all biases zero, all weights 1 (node sums are zero: no division by them)
        {
            t.w = weights(0u, ref::n_weights(s));
            t.b = biases(0u, s.r * s.c);
            e.set_weights(t.w);
            e.set_biases(t.b);
            auto q = gradient(e, t, dmat{dvec(s.n, 0.)}, dmat{dvec(s.m, 0.5)}, false, 0u);
            mc::check(q.empty(), "gradient-at-zero", [&]() { return mc::str(x) + ": " + q; });
        }
        // the cumulating version adds to what it is given
        {
            dmat P, L;
            data(count, s.n, s.m, 1u, false, P, L);
            double v = 0.5;
            dvec gw(t.w.size(), 0.25), gb(t.b.size(), -0.125), g(t.w.size() + t.b.size(), 0.);
            t.kink = false;
            const double l = t.loss(P[0], L[0], false, &g);
            e.d_loss(v, gw, gb, P[0], L[0], lt::MSE);
            dvec wgw(g.begin(), g.begin() + static_cast<long>(t.w.size())), wgb(g.begin() + static_cast<long>(t.w.size()), g.end());
            for (auto &q : wgw) q += 0.25;
            for (auto &q : wgb) q -= 0.125;
            mc::check(mc::close(v, 0.5 + l), "cumulated", [&]() { return mc::str(x) + " loss " + mc::str(v) + " instead of " + mc::str(0.5 + l); });
            if (!t.kink) mc::check(mc::close(gw, wgw, 1e-8, 1e-9) && mc::close(gb, wgb, 1e-8, 1e-9), "cumulated", [&]() { return mc::str(x) + " " + mc::str(gw) + mc::str(gb) + " instead of " + mc::str(wgw) + mc::str(wgb); });
        }
        mc::check(dvec(e.get_weights()) == t.w && dvec(e.get_biases()) == t.b && uvec(e.get().begin(), e.get().end()) == x, "changed", [&]() { return mc::str(x); });
        ++count;
        ++mc::rep().traces;
    };
    if (big) {
        for (auto &x : ref::large_chromosomes(s, s.size() > 100u ? 61u : 17u)) body(x);
        mc::rep().counters["large shapes"]++;
    } else if (!ref::all_chromosomes(s, cap, body)) {
        for (auto &b : ref::bases(s)) ref::near_chromosomes(s, b, mc::rep().thorough ? 2u : 1u, body);
        mc::rep().exhaustive = false;
    }
    // refusals
    t.w = dvec(e.get_weights());
    auto bad = [&](const char *what, const std::function<void()> &f) {
        auto o = mc::outcome_of(f);
        mc::check(o == "invalid_argument", "refused", [&]() { return std::string(what) + ": '" + o + "'"; });
        ++mc::rep().transitions;
    };
    const dvec x(s.n, 0.5), y(s.m, 0.5), xl(s.n + 1u, 0.5), xs(s.n - 1u, 0.5), yl(s.m + 1u, 0.5), ys(s.m - 1u, 0.5);
    for (auto l : {lt::MSE, lt::CE}) {
        for (unsigned par : {0u, 1u, 2u}) {
            bad("no data", [&]() { e.d_loss(dmat{}, dmat{}, l, par); });
            bad("more points", [&]() { e.d_loss(dmat{x, x}, dmat{y}, l, par); });
            bad("more labels", [&]() { e.d_loss(dmat{x, x}, dmat{y, y, y, y}, l, par); });
            for (auto *q : {&xl, &xs}) bad("point size", [&]() { e.d_loss(dmat{x, *q}, dmat{y, y}, l, par); });
            for (auto *q : {&yl, &ys}) bad("label size", [&]() { e.d_loss(dmat{*&x, x}, dmat{y, *q}, l, par); });
        }
        for (unsigned par : {2u, 4u, 5u}) bad("parts", [&]() { e.d_loss(dmat{x, x, x}, dmat{y, y, y}, l, par); });
        double v = 0.;
        const std::size_t nw = t.w.size(), nb = t.b.size();
        for (int dw : {-1, 0, 1})
            for (int db : {-1, 0, 1}) {
                if (!dw && !db) continue;
                dvec gw(nw + static_cast<std::size_t>(dw), 0.), gb(nb + static_cast<std::size_t>(db), 0.);
                bad("gradient size", [&]() { e.d_loss(v, gw, gb, x, y, l); });
                for (double q : gw) mc::check(q == 0., "refused-changed", []() { return std::string(); });
            }
        mc::check(v == 0., "refused-changed", []() { return std::string("value"); });
    }
}
// every history of changes leaves a network whose value and gradient are those of its current state
static void histories(const shape &s, const std::vector<std::string> &ks, unsigned depth)
{
    struct st {
        A e;
        net t;
    };
    struct op {
        std::string name;
        std::function<void(st &)> run;
    };
    const auto B = ref::bases(s);
    const unsigned nw = ref::n_weights(s), nb = s.r * s.c;
    std::vector<op> O;
    for (unsigned i = 0; i < B.size(); ++i) O.push_back({"set" + std::to_string(i), [&B, i](st &q) { q.e.set(B[i]); q.t.x = B[i]; }});
    O.push_back({"range", [&B](st &q) { q.e.set_from_range(B[3].begin(), B[3].end()); q.t.x = B[3]; }});
    O.push_back({"fgene", [&s](st &q) { q.e.set_f_gene(s.n, 1u); q.t.x[s.gene(s.n)] = 1u; }});
    auto cur = [](st &q) { q.t.x = uvec(q.e.get()); };
    O.push_back({"active", [cur](st &q) { q.e.mutate_active(2u); cur(q); }});
    O.push_back({"inactive", [cur](st &q) { q.e.mutate_inactive(6u); cur(q); }});
    O.push_back({"random", [cur](st &q) { q.e.mutate_random(2u); cur(q); }});
    O.push_back({"ogene", [cur](st &q) { q.e.mutate_ogene(1u); cur(q); }});
    O.push_back({"cgene", [cur](st &q) { q.e.mutate_active_cgene(1u); cur(q); }});
    O.push_back({"mutate0", [cur](st &q) { q.e.mutate(std::vector<unsigned>{0u, 1u}); cur(q); }});
    O.push_back({"output_f", [&s, cur](st &q) { q.e.set_output_f(q.t.k[0]); cur(q); }});
    O.push_back({"ws", [nw, nb](st &q) { q.t.w = weights(2u, nw); q.t.b = biases(2u, nb); q.e.set_weights(q.t.w); q.e.set_biases(q.t.b); }});
    O.push_back({"w0", [&s](st &q) { q.e.set_weight(s.n, 0u, 0.8); q.t.w[0] = 0.8; q.e.set_bias(0u, -0.7); q.t.b[0] = -0.7; }});
    O.push_back({"refused", [&s](st &q) { auto x = q.t.x; x.back() = 99u; mc::outcome_of([&]() { q.e.set(x); }); mc::outcome_of([&]() { q.e.mutate(std::vector<unsigned>{0u, 999u}); }); }});
    O.push_back({"copy", [](st &q) { A c(q.e); c.mutate_random(5u); c.randomise_weights(); c.randomise_biases(); }});
    O.push_back({"assign", [](st &q) { A c; c = q.e; q.e = A(); q.e = c; }});
    O.push_back({"move", [](st &q) { A c(std::move(q.e)); q.e = std::move(c); }});
    O.push_back({"sgd", [&s](st &q) { dmat P, L; data(1u, s.n, s.m, 3u, false, P, L); q.e.sgd(P, L, 0.05, 2u, "MSE", 0u, false); q.t.w = dvec(q.e.get_weights()); q.t.b = dvec(q.e.get_biases()); }});
    for (unsigned i = 0; i < O.size(); ++i)
        for (unsigned i2 = 0; i2 < (depth > 3u ? O.size() : 1u); ++i2) {
            if (!mc::begin("history " + s.str() + " " + names(ks) + " " + O[i].name + (depth > 3u ? "," + O[i2].name : ""))) continue;
            std::vector<unsigned> fix{i};
            if (depth > 3u) fix.push_back(i2);
            dmat P[2], L[2];
            for (unsigned ce = 0; ce < 2u; ++ce) data(3u, s.n, s.m, 2u, ce, P[ce], L[ce]);
            mc::product(std::vector<unsigned>(depth - fix.size(), static_cast<unsigned>(O.size())), [&](const uvec &v) {
                st q{A(s.n, s.m, s.r, s.c, s.l, s.arity, kernels(ks), 5u), {s, ks, {}, dvec(nw, 1.), dvec(nb, 0.)}};
                q.t.w = weights(1u, nw);
                q.t.b = biases(1u, nb);
                q.e.set_weights(q.t.w);
                q.e.set_biases(q.t.b);
                q.t.x = uvec(q.e.get());
                std::vector<unsigned> seq(fix);
                seq.insert(seq.end(), v.begin(), v.end());
                std::string d;
                for (auto k : seq) {
                    O[k].run(q);
                    d += O[k].name + ";";
                    auto r = inconsistent(q.e, s);
                    for (unsigned ce = 0; ce < 2u && r.empty(); ++ce) r = gradient(q.e, q.t, P[ce], L[ce], ce, 0u);
                    if (r.empty() && uvec(q.e.get().begin(), q.e.get().end()) != q.t.x) r = "chromosome is " + mc::str(q.e.get()) + " instead of " + mc::str(q.t.x);
                    ++mc::rep().transitions;
                    if (!mc::check(r.empty(), "history", [&]() { return d + " " + r; })) break;
                }
                mc::alive();
                ++mc::rep().traces;
            });
            ++mc::rep().states;
        }
}
int main(int argc, char **argv)
{
    return mc::main(argc, argv, []() {
        const bool th = mc::rep().thorough;
#if MODE == 1
        accepted();
        // every kernel at every place of the set, both constructors
        for (auto &a : ref::net_kernels())
            for (auto &b : ref::net_kernels())
                if (a != b)
                    for (bool u : {false, true}) structure(shape{1, 1, 1, 2, 2, {2, 2}, 2}, {a, b}, 400u, u);
        for (bool u : {false, true}) {
            std::vector<std::string> all(ref::net_kernels().begin(), ref::net_kernels().end());
            structure(shape{2, 1, 2, 1, 1, {2}, 12}, all, 4000u, u);
            std::reverse(all.begin(), all.end());
            structure(shape{2, 1, 2, 1, 1, {2}, 12}, all, 4000u, u);
        }
        for (auto &s : shapes_())
            for (std::size_t t = 0; t < KS.size(); ++t) structure(s, KS[t], th ? 60000u : 2500u);
        for (auto &s : ref::large(2u)) {
            if (s.r * s.c == 100u) continue; // formulas not linear in the number of nodes
            structure(s, {"tanh", "sig"}, 0u, false, true);
            structure(s, {"sin_nu", "ISRU"}, 0u, false, true);
        }
        if (th)
            for (auto &s : hc::shapes(2, 2, 2, 2, 2, 2))
                if (s.nf == 2u) structure(s, KS[(s.size() + s.l) % KS.size()], 20000u);
#else
        // every kernel at every place of the set, both constructors
        for (auto &a : ref::net_kernels())
            for (auto &b : ref::net_kernels())
                if (a != b)
                    for (bool u : {false, true}) gradients(shape{1, 1, 1, 2, 2, {2, 2}, 2}, {a, b}, 400u, u);
        for (bool u : {false, true}) {
            std::vector<std::string> all(ref::net_kernels().begin(), ref::net_kernels().end());
            gradients(shape{2, 1, 2, 1, 1, {2}, 12}, all, 4000u, u);
            std::reverse(all.begin(), all.end());
            gradients(shape{2, 1, 2, 1, 1, {2}, 12}, all, 4000u, u);
        }
        for (auto &s : shapes_())
            for (std::size_t t = 0; t < KS.size(); ++t) gradients(s, KS[t], th ? 60000u : 2500u);
        for (auto &s : ref::large(2u)) {
            gradients(s, {"tanh", "sig"}, 0u, false, true);
            gradients(s, {"sin_nu", "ISRU"}, 0u, false, true);
        }
        if (th)
            for (auto &s : hc::shapes(2, 2, 2, 2, 2, 2))
                if (s.nf == 2u) gradients(s, KS[(s.size() + s.l) % KS.size()], 20000u);
        for (auto &s : {shape{2, 2, 2, 2, 3, {2, 1}, 2}, shape{1, 2, 1, 3, 2, {1, 3, 2}, 2}}) histories(s, {"tanh", "sig"}, th ? 4u : 3u);
        histories(shape{1, 1, 2, 2, 1, {2, 2}, 2}, {"ISRU", "sin_nu"}, th ? 4u : 3u);
#endif
    });
}
