// E02: whatever history of operations an expression went through (including refused ones), its active nodes/genes, bounds
// and parameters describe exactly its current chromosome, and a refused operation changes nothing.
// Explicit-state search over the real object: a state is (chromosome, constants, symbols); every operation of the alphabet is
// applied in every reached state, with every answer of the random engine (first draws enumerated, later ones rotate).
#include "common.hpp"
#include <deque>
using namespace hc;

struct state {
    uvec x;
    dvec eph;
    std::vector<std::string> symb;
    bool operator<(const state &o) const
    {
        return std::tie(x, eph, symb) < std::tie(o.x, o.eph, o.symb);
    }
    bool operator==(const state &o) const
    {
        return x == o.x && eph == o.eph && symb == o.symb;
    }
};
static state observe(const expression<double> &e)
{
    return {uvec(e.get()), e.get_eph_val(), e.get_eph_symb()};
}
static std::string str(const state &s)
{
    return mc::str(s.x) + mc::str(s.eph) + mc::str(s.symb);
}
// expected outcome of an operation: 0 must succeed, 1 must be refused with invalid_argument and change nothing
struct op {
    std::string name;
    int refused;
    bool random;
    std::function<void(expression<double> &)> f;
};

static std::vector<op> alphabet(const shape &s, unsigned eph)
{
    std::vector<op> v;
    auto bs = ref::bases(s);
    auto add = [&](const std::string &n, int refused, bool random, std::function<void(expression<double> &)> f) {
        v.push_back({n, refused, random, f});
    };
    for (unsigned i = 0; i < 2u; ++i) {
        uvec b = bs[i + 1u];
        add("set(base" + std::to_string(i + 1u) + ")", 0, false, [b](auto &e) { e.set(b); });
        dvec bd(b.begin(), b.end());
        add("set_from_range(base" + std::to_string(i + 1u) + ")", 0, false, [bd](auto &e) { e.set_from_range(bd.begin(), bd.end()); });
    }
    {
        uvec b = bs[0];
        b.back() = s.nodes();
        add("set(bad last gene)", 1, false, [b](auto &e) { e.set(b); });
        b = bs[1];
        b[0] = s.nf;
        add("set(bad first gene)", 1, false, [b](auto &e) { e.set(b); });
        std::vector<int> bi(b.begin(), b.end());
        add("set_from_range(bad)", 1, false, [bi](auto &e) { e.set_from_range(bi.begin(), bi.end()); });
        b = bs[2];
        b.pop_back();
        add("set(short)", 1, false, [b](auto &e) { e.set(b); });
        b = bs[2];
        b.push_back(b.back());
        add("set(long)", 1, false, [b](auto &e) { e.set(b); });
        add("set(empty)", 1, false, [](auto &e) { e.set(uvec()); });
    }
    for (unsigned k = s.n; k < s.nodes(); ++k)
        for (unsigned f = 0; f < s.nf; ++f) add("set_f_gene(" + std::to_string(k) + "," + std::to_string(f) + ")", 0, false, [k, f](auto &e) { e.set_f_gene(k, f); });
    for (unsigned k : {0u, s.n - 1u, s.nodes(), 4294967295u}) add("set_f_gene(" + std::to_string(k) + ",0)", 1, false, [k](auto &e) { e.set_f_gene(k, 0u); });
    add("set_f_gene(n,nf)", 1, false, [s](auto &e) { e.set_f_gene(s.n, s.nf); });
    if (eph) {
        add("set_eph_val(a)", 0, false, [eph](auto &e) { e.set_eph_val(dvec(eph, 1.5)); });
        add("set_eph_symb(k)", 0, false, [eph](auto &e) { e.set_eph_symb(std::vector<std::string>(eph, "k")); });
    }
    add("set_eph_val(too many)", 1, false, [eph](auto &e) { e.set_eph_val(dvec(eph + 1u, 2.5)); });
    add("set_eph_symb(too many)", 1, false, [eph](auto &e) { e.set_eph_symb(std::vector<std::string>(eph + 1u, "q")); });
    if (eph) add("set_eph_val(too few)", 1, false, [](auto &e) { e.set_eph_val(dvec()); });
    for (unsigned g = 0; g < s.size(); ++g) add("mutate(" + std::to_string(g) + ")", 0, true, [g](auto &e) { e.mutate(g); });
    for (unsigned g : {s.size(), 4294967295u}) add("mutate(" + std::to_string(g) + ")", 1, false, [g](auto &e) { e.mutate(g); });
    add("mutate([all])", 0, true, [s](auto &e) {
        uvec g;
        for (unsigned i = 0; i < s.size(); ++i) g.push_back(i);
        e.mutate(g);
    });
    add("mutate([])", 0, true, [](auto &e) { e.mutate(uvec()); });
    add("mutate([last,last])", 0, true, [s](auto &e) { e.mutate(uvec{s.size() - 1u, s.size() - 1u}); });
    add("mutate([last,bad])", 1, true, [s](auto &e) { e.mutate(uvec{s.size() - 1u, s.size()}); });
    add("mutate([1,last,bad])", 1, true, [s](auto &e) { e.mutate(uvec{1u, s.size() - 1u, s.size() + 5u}); });
    for (unsigned N : {0u, 1u, 2u}) {
        std::string a = "(" + std::to_string(N) + ")";
        add("mutate_random" + a, 0, true, [N](auto &e) { e.mutate_random(N); });
        add("mutate_active" + a, 0, true, [N](auto &e) { e.mutate_active(N); });
        add("mutate_inactive" + a, 0, true, [N](auto &e) { e.mutate_inactive(N); });
        add("mutate_active_fgene" + a, 0, true, [N](auto &e) { e.mutate_active_fgene(N); });
        add("mutate_active_cgene" + a, 0, true, [N](auto &e) { e.mutate_active_cgene(N); });
        add("mutate_ogene" + a, 0, true, [N](auto &e) { e.mutate_ogene(N); });
    }
    add("seed", 0, false, [](auto &e) { e.seed(42); });
    add("evaluate", 0, false, [s, eph](auto &e) { e(dvec(s.n - eph, 0.7)); });
    add("evaluate(wrong size)", 1, false, [s, eph](auto &e) { e(dvec(s.n - eph + 1u, 0.7)); });
    add("print(wrong size)", 1, false, [s, eph](auto &e) { e(std::vector<std::string>(s.n - eph + 2u, "x")); });
    add("loss(wrong size)", 1, false, [s, eph](auto &e) { e.loss({dvec(s.n - eph + 1u, 0.7)}, {dvec(s.m, 0.)}, "MSE", 0u); });
    add("loss(bad name)", 1, false, [s, eph](auto &e) { e.loss({dvec(s.n - eph, 0.7)}, {dvec(s.m, 0.)}, "XX", 0u); });
    add("copy and assign back", 0, false, [](auto &e) {
        expression<double> c(e), d(std::move(c));
        e = d;
    });
    return v;
}

static const std::vector<std::string> KN{"sum", "mul", "diff"};

static void check_state(const expression<double> &e, const shape &s, unsigned eph, const std::vector<ref::fun> &f, const std::string &after)
{
    std::string w = inconsistent(e, s);
    mc::check(w.empty(), "inconsistent", [&]() { return "after " + after + ": " + w; });
    if (!w.empty()) return;
    mc::check(e.get_eph_val().size() == eph && e.get_eph_symb().size() == eph, "constants", [&]() { return "after " + after; });
    for (unsigned g = 0; g < s.size(); ++g) {
        mc::check(e.get_lb()[g] == s.allowed(g).front() && e.get_ub()[g] == s.allowed(g).back(), "bounds-changed", [&]() { return "after " + after; });
    }
    dvec in;
    for (unsigned i = 0; i < s.n - eph; ++i) in.push_back(0.5 + 1.25 * i);
    dvec full(in);
    full.insert(full.end(), e.get_eph_val().begin(), e.get_eph_val().end());
    auto got = e(in);
    auto want = s.eval(uvec(e.get()), full, f);
    mc::check(mc::close(got, want), "value", [&]() { return "after " + after + " value " + mc::str(got) + " expected " + mc::str(want); });
}

static void search(const shape &s, unsigned eph, std::size_t max_states, unsigned depth)
{
    if (!mc::begin("search " + s.str() + " eph" + std::to_string(eph))) return;
    std::vector<std::string> names(KN.begin(), KN.begin() + s.nf);
    auto ker = kernels(names);
    auto rk = ref_kernels(names);
    expression<double> root(s.n - eph, s.m, s.r, s.c, s.l, s.arity, ker, eph, 5u);
    root.set(ref::bases(s)[0]);
    if (eph) root.set_eph_val(dvec(eph, -2.25));
    auto ops = alphabet(s, eph);
    unsigned K = std::max({s.size(), s.nodes(), s.nf, 2u});
    std::map<state, std::vector<std::string>> seen;
    std::deque<expression<double>> todo;
    std::deque<std::vector<std::string>> hist;
    seen[observe(root)];
    todo.push_back(root);
    hist.push_back({});
    bool capped = false;
    while (!todo.empty()) {
        expression<double> cur = todo.front();
        auto h = hist.front();
        todo.pop_front();
        hist.pop_front();
        ++mc::rep().states;
        const state before = observe(cur);
        for (auto &o : ops) {
            auto once = [&]() {
                expression<double> e(cur);
                ++mc::rep().transitions;
                std::string at = mc::str(h) + " " + o.name + " from " + str(before);
                std::string out = mc::outcome_of([&]() { o.f(e); });
                mc::check(out == (o.refused ? "invalid_argument" : ""), "outcome", [&]() { return at + " draws " + mc::choices() + " -> '" + out + "'"; });
                state now = observe(e);
                mc::outcome(str(now));
                if (o.refused) {
                    mc::check(now == before, "refused-but-changed", [&]() { return at + " became " + str(now); });
                }
                mc::chooser::get().active = false;
                check_state(e, s, eph, rk, at);
                if (!seen.count(now)) {
                    if (seen.size() < max_states) {
                        auto nh = h;
                        nh.push_back(o.name);
                        seen[now] = nh;
                        todo.push_back(e);
                        hist.push_back(nh);
                    } else {
                        capped = true;
                    }
                }
            };
            ++mc::rep().traces;
            if (o.random) {
                mc::explore(K, depth, once);
            } else {
                once();
            }
            mc::alive();
        }
    }
    mc::rep().counters[capped ? "shapes searched up to the state cap" : "shapes searched to a fixpoint"]++;
    if (capped) mc::rep().exhaustive = false;
    mc::sample(s.str() + ": " + std::to_string(seen.size()) + " states, last history " + mc::str(seen.rbegin()->second));
}

// all operation sequences of the given length, without merging states (catches state hidden behind the observers)
static void sequences(const shape &s, unsigned eph, unsigned len)
{
    std::vector<std::string> names(KN.begin(), KN.begin() + s.nf);
    auto ker = kernels(names);
    auto rk = ref_kernels(names);
    auto ops = alphabet(s, eph);
    expression<double> root(s.n - eph, s.m, s.r, s.c, s.l, s.arity, ker, eph, 5u);
    for (unsigned first = 0; first < ops.size(); ++first) {
        if (!mc::begin("sequences " + s.str() + " eph" + std::to_string(eph) + " first " + ops[first].name)) continue;
        std::function<void(const expression<double> &, unsigned, const std::string &)> go = [&](const expression<double> &e0, unsigned left, const std::string &h) {
            for (unsigned i = 0; i < ops.size(); ++i) {
                if (left == len && i != first) continue;
                expression<double> e(e0);
                state before = observe(e);
                std::string at = h + " " + ops[i].name;
                std::string out = mc::outcome_of([&]() { ops[i].f(e); });
                ++mc::rep().transitions;
                mc::check(out == (ops[i].refused ? "invalid_argument" : ""), "outcome", [&]() { return at + " -> '" + out + "'"; });
                if (ops[i].refused) mc::check(observe(e) == before, "refused-but-changed", [&]() { return at; });
                check_state(e, s, eph, rk, at);
                if (left > 1u) go(e, left - 1u, at);
                else ++mc::rep().traces;
            }
            mc::alive();
        };
        go(root, len, "");
    }
}

// one long history on a large shape: every operation of the alphabet once, in two orders (long mutations included)
static void longrun(const shape &s0, unsigned eph, bool backwards)
{
    shape s(s0.n, s0.m, s0.r, s0.c, s0.l, s0.arity, 3u);
    if (!mc::begin("long history " + s.str() + " eph" + std::to_string(eph) + (backwards ? " backwards" : ""))) return;
    auto rk = ref_kernels(KN);
    auto ops = alphabet(s, eph);
    for (unsigned N : {7u, 40u, 300u}) {
        std::string a = "(" + std::to_string(N) + ")";
        ops.push_back({"mutate_random" + a, 0, true, [N](auto &e) { e.mutate_random(N); }});
        ops.push_back({"mutate_active" + a, 0, true, [N](auto &e) { e.mutate_active(N); }});
        ops.push_back({"mutate_inactive" + a, 0, true, [N](auto &e) { e.mutate_inactive(N); }});
        ops.push_back({"mutate_active_fgene" + a, 0, true, [N](auto &e) { e.mutate_active_fgene(N); }});
        ops.push_back({"mutate_active_cgene" + a, 0, true, [N](auto &e) { e.mutate_active_cgene(N); }});
        ops.push_back({"mutate_ogene" + a, 0, true, [N](auto &e) { e.mutate_ogene(N); }});
    }
    if (backwards) std::reverse(ops.begin(), ops.end());
    expression<double> e(s.n - eph, s.m, s.r, s.c, s.l, s.arity, kernels(KN), eph, 5u);
    dvec in;
    unsigned k = 0;
    const unsigned every = s.size() > 300u ? 5u : 1u;
    for (auto &o : ops) {
        state before = observe(e);
        std::string out = mc::outcome_of([&]() { o.f(e); });
        ++mc::rep().transitions;
        mc::check(out == (o.refused ? "invalid_argument" : ""), "outcome", [&]() { return o.name + " -> '" + out + "'"; });
        if (o.refused) mc::check(observe(e) == before, "refused-but-changed", [&]() { return o.name; });
        if (k++ % every == 0u) {
            s.memo.clear();
            check_state(e, s, eph, rk, o.name);
        }
        mc::alive();
    }
    ++mc::rep().traces;
    mc::rep().states += ops.size();
}

int main(int argc, char **argv)
{
    return mc::main(argc, argv, []() {
        bool t = mc::rep().thorough;
        std::vector<std::pair<shape, unsigned>> small{
            {shape(1, 1, 1, 1, 1, {2}, 2), 0u}, {shape(2, 1, 1, 2, 2, {1, 1}, 2), 1u}, {shape(1, 2, 1, 2, 1, {1, 2}, 2), 0u},
            {shape(2, 1, 2, 1, 2, {1}, 2), 1u}, {shape(2, 2, 1, 2, 3, {1, 1}, 1), 0u}, {shape(1, 1, 1, 3, 2, {1, 1, 1}, 1), 0u},
            {shape(2, 1, 1, 2, 3, {2, 1}, 2), 0u}, {shape(1, 1, 2, 2, 1, {1, 1}, 1), 0u}};
        for (auto &p : small) search(p.first, p.second, t ? 20000 : 450, t ? 3 : 2);
        std::vector<std::pair<shape, unsigned>> big{{shape(2, 2, 2, 2, 2, {2, 1}, 3), 1u}, {shape(3, 1, 1, 4, 3, {2, 2, 1, 2}, 3), 1u}};
        for (auto &p : big) search(p.first, p.second, t ? 3000 : 60, 2);
        for (auto &s : ref::large(3u))
            for (bool back : {false, true}) longrun(s, s.n > 10u ? 10u : 1u, back);
        sequences(shape(2, 1, 1, 2, 2, {1, 1}, 2), 1u, t ? 4 : 3);
        sequences(shape(2, 2, 1, 2, 3, {2, 1}, 2), 0u, t ? 3 : 2);
    });
}
