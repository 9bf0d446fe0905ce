"""Expressions, kernels and kernel sets as seen from Python: every bound method against a reference model"""
import copy
import itertools
import math
import pickle

import numpy as np

import dcgpy
import pmc
import ref
from pmc import R, check, close, raises
from num import COPIES, NUMBERS_ONLY, T, base, cls, kset
from ref import Shape

KINDS = ["double", "gdual_double", "gdual_vdouble", "weighted_double", "weighted_gdual_double", "weighted_gdual_vdouble", "ann"]
POINTS = [[0.75, 1.375, 2.125], [-0.625, 0.875, -1.25]]


# ---- model ----------------------------------------------------------------------------------------------------------
class Model:
    def __init__(self, kind, shape, eph, names):
        self.kind, self.s, self.eph_n, self.names = kind, Shape(*shape, nf=len(names)), eph, names
        self.T = T(kind)
        self.B = self.s.bounds()
        s = self.s
        self.nw = sum(s.ar(i) for i in range(s.n, s.nodes)) if kind == "ann" or "weighted" in kind else 0
        self.nb = s.r * s.c if kind == "ann" else 0
        self.x, self.eph, self.symb, self.w, self.b = None, [], ["c%d" % (i + 1) for i in range(eph)], [1.] * self.nw, [0.] * self.nb

    def copy(self):
        m = copy.copy(self)
        m.x, m.eph, m.symb, m.w, m.b = list(self.x), list(self.eph), list(self.symb), list(self.w), list(self.b)
        return m

    def value(self, p):
        first, k = {}, 0
        for i in range(self.s.n, self.s.nodes):
            first[i] = k
            k += self.s.ar(i)
        return self.s.eval(self.x, list(p) + self.eph, [ref.K[f] for f in self.names], (lambda i, j: self.w[first[i] + j]) if self.nw else None, (lambda i: self.b[i - self.s.n]) if self.nb else None)

    def legal(self, x):
        return len(x) == self.s.size and all(a in b for a, b in zip(x, self.B))


def observe(ex, m):
    """complaint or '' """
    s, t = m.s, m.T
    if ex.get() != m.x:
        return "chromosome %s instead of %s" % (ex.get(), m.x)
    an, ag = s.active(m.x)
    if sorted(ex.get_active_nodes()) != an or sorted(ex.get_active_genes()) != ag:
        return "active nodes %s genes %s of %s" % (ex.get_active_nodes(), ex.get_active_genes(), m.x)
    if m.kind != "ann" and [t.down(v) for v in ex.eph_val] != m.eph or ex.eph_symb != m.symb:
        return "constants %s %s" % (ex.eph_val, ex.eph_symb)
    if m.nw and [t.down(v) for v in ex.get_weights()] != m.w:
        return "weights %s instead of %s" % (ex.get_weights(), m.w)
    if m.nb and ex.get_biases() != m.b:
        return "biases %s instead of %s" % (ex.get_biases(), m.b)
    nin = s.n - m.eph_n
    for p in POINTS:
        got = [t.down(v) for v in ex([t.up(v) for v in p[:nin]])]
        want = m.value(p[:nin])
        if len(got) != s.m or not all(g is not None and close(g, v) for g, v in zip(got, want)):
            return "value %s instead of %s" % (got, want)
    return ""


def structure(ex, m, w):
    s = m.s
    got = (ex.get_n(), ex.get_m(), ex.get_rows(), ex.get_cols(), ex.get_levels_back(), ex.get_arity(), ex.get_lb(), ex.get_ub(), [str(f) for f in ex.get_f()])
    want = (s.n, s.m, s.r, s.c, s.l, s.arity, [b[0] for b in m.B], [b[-1] for b in m.B], m.names)
    check(got == want, "structure", lambda: w + "%s instead of %s" % (got, want))
    g = ex.get_gene_idx()
    check(all(g[i] == s.gene[i] for i in range(s.n, s.nodes)), "structure", w + "gene_idx %s" % g)
    for i in range(s.n, s.nodes):
        check(ex.get_arity(i) == s.ar(i), "structure", w + "arity of %d" % i)
    for i in list(range(s.n)) + [s.nodes, s.nodes + 1, 2 ** 31]:
        check(raises(ValueError, ex.get_arity, i), "structure", w + "arity of %d is given" % i)
    check(isinstance(repr(ex), str) and repr(ex), "repr", w)


# ---- operations -----------------------------------------------------------------------------------------------------
def frame(m, ex, allowed, n, must=None, exact=False):
    """a mutation: m follows the expression if only what may change did"""
    y = ex.get()
    d = [i for i in range(len(y)) if y[i] != m.x[i]]
    if not m.legal(y):
        return "illegal chromosome %s" % y
    if len(d) > n or any(i not in allowed for i in d):
        return "genes %s changed, up to %d of %s may" % (d, n, sorted(allowed))
    if must is not None and {i for i in must if len(m.B[i]) > 1} - set(d):
        return "genes %s did not change" % must
    if exact and n == 1 and all(len(m.B[i]) > 1 for i in allowed) and allowed and len(d) != 1:
        return "no gene changed"
    m.x = y
    return ""


def refused(f, *a):
    return "" if raises(ValueError, f, *a) else "not refused with ValueError"


def types(f, *a):
    return "" if raises(TypeError, f, *a) else "not refused with TypeError"


def operations(m0):
    s, t, O = m0.s, m0.T, []
    B = m0.B
    bases = s.bases()

    def op(name, f):
        O.append((name, f))

    def put(b, how):
        def f(ex, m):
            ex.set(how(b))
            m.x = list(b)
            return ""
        return f
    for i, how in enumerate((list, tuple, lambda b: np.array(b, dtype=np.uint32), lambda b: [np.int64(v) for v in b])):
        op("set%d" % i, put(bases[i], how))

    def bads(ex, m):
        r = refused(ex.set, m.x[:-1]) or refused(ex.set, m.x + [0]) or refused(ex.set, [])
        for g in range(s.size):
            for v in (B[g][0] - 1, B[g][-1] + 1):
                if v >= 0:
                    y = list(m.x)
                    y[g] = v
                    r = r or refused(ex.set, y)
        return r or types(ex.set, [0.5] * s.size) or types(ex.set, "x") or types(ex.set, [-1] * s.size) or types(ex.set, None) or types(ex.set)
    op("set-bad", bads)

    def fgene(node, f):
        def g(ex, m):
            ex.set_f_gene(node_id=node, f_id=f)
            m.x[s.gene[node]] = f
            return ""
        return g
    op("f-first", fgene(s.n, s.nf - 1))
    op("f-last", fgene(s.nodes - 1, 0))
    op("f-bad", lambda ex, m: refused(ex.set_f_gene, s.n - 1, 0) or refused(ex.set_f_gene, s.nodes, 0) or refused(ex.set_f_gene, s.n, s.nf) or types(ex.set_f_gene, s.n) or types(ex.set_f_gene, [s.n], 0))
    op("mut1", lambda ex, m: ex.mutate(1) or frame(m, ex, {1}, 1, [1]))
    op("mut-kw", lambda ex, m: ex.mutate(idxs=s.size - 1) or frame(m, ex, {s.size - 1}, 1, [s.size - 1]))
    op("mut-list", lambda ex, m: ex.mutate([0, 2, s.size - 1]) or frame(m, ex, {0, 2, s.size - 1}, 3, [0, 2, s.size - 1]))
    op("mut-np", lambda ex, m: ex.mutate(idxs=np.array([1, 3], dtype=np.uint32)) or frame(m, ex, {1, 3}, 2, [1, 3]))
    op("mut-bad", lambda ex, m: refused(ex.mutate, s.size) or refused(ex.mutate, [s.size]) or refused(ex.mutate, list(range(s.size + 1))) or types(ex.mutate, "a") or types(ex.mutate, 0.5))
    op("mut-none", lambda ex, m: ex.mutate([]) or frame(m, ex, set(), 0))
    allg = set(range(s.size))

    def kinds(m):
        a = s.active(m.x)[1]
        out = set(range(s.size - s.m, s.size))
        fg = set(s.gene.values())
        return {"active": set(a), "fgene": set(a) & fg, "cgene": set(a) - fg - out, "ogene": out}
    for n in (None, 0, 1, 2):
        a, N = ([], 1) if n is None else ([n], n)
        op("random%s" % n, lambda ex, m, a=a, N=N: ex.mutate_random(*a) or frame(m, ex, allg, N, exact=True))
        op("active%s" % n, lambda ex, m, a=a, N=N: ex.mutate_active(*a) or frame(m, ex, kinds(m)["active"], N, exact=True) if N < 2 else ex.mutate_active(*a) or frame(m, ex, allg, N))
        op("cgene%s" % n, lambda ex, m, a=a, N=N: ex.mutate_active_cgene(*a) or (frame(m, ex, kinds(m)["cgene"], N, exact=True) if N < 2 else frame(m, ex, allg - set(s.gene.values()) - kinds(m)["ogene"], N)))
        op("fgene%s" % n, lambda ex, m, a=a, N=N: ex.mutate_active_fgene(*a) or frame(m, ex, kinds(m)["fgene"], N, exact=True))
        op("ogene%s" % n, lambda ex, m, a=a, N=N: ex.mutate_ogene(*a) or frame(m, ex, kinds(m)["ogene"], N, exact=True))
    op("random-kw", lambda ex, m: ex.mutate_random(N=1) or ex.mutate_active(N=0) or ex.mutate_ogene(N=0) or ex.mutate_active_fgene(N=0) or ex.mutate_active_cgene(N=0) or frame(m, ex, allg, 1, exact=True))

    if m0.eph_n:
        def eph(v, how):
            def f(ex, m):
                ex.eph_val = how([t.up(q) for q in v])
                m.eph = list(v)
                return ""
            return f
        op("eph", eph([2.5 + i for i in range(m0.eph_n)], list))
        op("eph2", eph([-0.75 * (i + 1) for i in range(m0.eph_n)], tuple))

        def symb(v):
            def f(ex, m):
                ex.eph_symb = v
                m.symb = v
                return ""
            return f
        op("symb", symb(["k%d" % i for i in range(m0.eph_n)]))
    op("eph-bad", lambda ex, m: refused(lambda: setattr(ex, "eph_val", [t.up(1.)] * (m0.eph_n + 1))) or refused(lambda: setattr(ex, "eph_symb", ["a"] * (m0.eph_n + 1))) or types(lambda: setattr(ex, "eph_val", "a")) or types(lambda: setattr(ex, "eph_symb", [1] * max(1, m0.eph_n))))
    if m0.nw:
        def ws(v, how):
            def f(ex, m):
                ex.set_weights(how([t.up(q) for q in v]))
                m.w = list(v)
                return ""
            return f
        op("ws", ws([0.5 - 0.375 * i for i in range(m0.nw)], list))
        op("ws2", ws([0.25 * (i % 5) - 0.5 for i in range(m0.nw)], tuple))

        def w1(node, j, v):
            def f(ex, m):
                if m.kind == "ann":
                    ex.set_weight(node_id=node, input_id=j, value=t.up(v))
                else:
                    ex.set_weight(node_id=node, input_id=j, weight=t.up(v))
                k = sum(s.ar(i) for i in range(s.n, node)) + j
                m.w[k] = v
                return "" if t.down(ex.get_weight(node, j)) == v and t.down(ex.get_weight(node_id=node, input_id=j)) == v else "get_weight"
            return f
        op("w-first", w1(s.n, 0, 1.75))
        op("w-last", w1(s.nodes - 1, s.ar(s.nodes - 1) - 1, -1.25))
        op("w-bad", lambda ex, m: refused(ex.set_weights, [t.up(0.)] * (m.nw + 1)) or refused(ex.set_weights, []) or refused(ex.set_weight, s.n - 1, 0, t.up(1.)) or refused(ex.set_weight, s.nodes, 0, t.up(1.)) or refused(ex.set_weight, s.n, s.ar(s.n), t.up(1.)) or refused(ex.get_weight, s.nodes, 0) or refused(ex.get_weight, s.n - 1, 0) or refused(ex.get_weight, s.n, s.ar(s.n)))
    if m0.kind == "ann":
        def bs(v):
            def f(ex, m):
                ex.set_biases(v)
                m.b = list(v)
                return ""
            return f
        op("bs", bs([0.25 - 0.125 * i for i in range(m0.nb)]))

        def b1(node, v):
            def f(ex, m):
                ex.set_bias(node_id=node, bias=v)
                m.b[node - s.n] = v
                return "" if [ex.get_bias(i) for i in range(s.n, s.nodes)] == m.b and ex.get_bias(node_id=node) == v else "get_bias"
            return f
        op("b-first", b1(s.n, -0.5))
        op("b-last", b1(s.nodes - 1, 0.875))
        op("b-bad", lambda ex, m: refused(ex.set_bias, s.n - 1, 1.) or refused(ex.set_bias, s.nodes, 1.) or refused(ex.get_bias, s.n - 1) or refused(ex.get_bias, s.nodes) or refused(ex.get_bias, 2 ** 32 - 1) or refused(ex.set_biases, [0.] * (m.nb + 1)) or refused(ex.set_biases, []))

        def wi(k, v):
            def f(ex, m):
                ex.set_weight(idx=k, value=v)
                m.w[k] = v
                return "" if [ex.get_weight(i) for i in range(m.nw)] == m.w and ex.get_weight(idx=k) == v else "get_weight"
            return f
        op("w-idx", wi(m0.nw - 1, 0.625))
        op("w-idx-bad", lambda ex, m: refused(ex.set_weight, m.nw, 1.) or refused(ex.get_weight, m.nw) or refused(ex.get_weight, 2 ** 32 - 1))

        def out_f(k):
            def f(ex, m):
                ex.set_output_f(f_id=m.names[k])
                for i in s.outputs(m.x):
                    if i >= s.n:
                        m.x[s.gene[i]] = k
                return ""
            return f
        if s.l < s.c + 1:
            op("out-f", out_f(1))
            op("out-f2", out_f(0))
        op("out-f-bad", lambda ex, m: refused(ex.set_output_f, "mul") or refused(ex.set_output_f, ""))

        def act_w(ex, m):
            an = [i for i in s.active(m.x)[0] if i >= s.n]
            n = sum(s.ar(i) for i in an)
            u = len({(i, j) for i in an for j in s.conns(m.x, i)})
            return "" if (ex.n_active_weights(), ex.n_active_weights(False), ex.n_active_weights(unique=True)) == (n, n, u) else "n_active_weights %d %d instead of %d %d" % (ex.n_active_weights(), ex.n_active_weights(unique=True), n, u)
        op("n-active", act_w)

        def rnd(ex, m):
            a, b = copy.deepcopy(ex), copy.deepcopy(ex)
            a.randomise_weights(mean=0.5, std=0.25, seed=7)
            b.randomise_weights(0.5, 0.25, 7)
            if a.get_weights() != b.get_weights() or a.get_biases() != m.b:
                return "randomise_weights"
            b.randomise_weights(seed=7)
            if not all(close(u, 0.5 + 0.25 * v / 0.1) for u, v in zip(a.get_weights(), b.get_weights())):
                return "randomise_weights: defaults"
            a.randomise_biases(mean=0.5, std=0.25, seed=9)
            b.randomise_biases(seed=9)
            if not all(close(u, 0.5 + 0.25 * v / 0.1) for u, v in zip(a.get_biases(), b.get_biases())):
                return "randomise_biases"
            a.randomise_weights(3., 1e-300)
            a.randomise_biases(-2., 1e-300)
            if a.get_weights() != [3.] * m.nw or a.get_biases() != [-2.] * m.nb:
                return "randomise without seed"
            ex.randomise_weights(0.5, 0.25, seed=3)
            m.w = ex.get_weights()
            return ""
        op("randomise", rnd)

        def sgd(ex, m):
            p = [q[:s.n] for q in POINTS] + [[0.25] * s.n]
            l = [[0.5 - 0.25 * i] * s.m for i in range(3)]
            p0, l0 = copy.deepcopy(p), copy.deepcopy(l)
            lr, h = 0.125, 1e-6

            def loss():
                return sum((a - b) ** 2 for q, k in zip(p, l) for a, b in zip(m.value(q), k)) / len(p) / s.m
            was = loss()
            gw, gb = [], []
            for v, g in ((m.w, gw), (m.b, gb)):
                for i in range(len(v)):
                    o = v[i]
                    v[i] = o + h
                    up = loss()
                    v[i] = o - h
                    g.append((up - loss()) / 2 / h)
                    v[i] = o
            kw = copy.deepcopy(ex)
            got = ex.sgd(p, l, lr, 3, "MSE", 0, False)
            if not close(got, was) or p != p0 or l != l0:
                return "sgd returned %s, the loss was %s" % (got, was)
            kw.sgd(shuffle=False, parallel=1, loss="MSE", batch_size=3, lr=lr, labels=np.array(l), points=np.array(p))
            if not all(close(a, b) for a, b in zip(kw.get_weights() + kw.get_biases(), ex.get_weights() + ex.get_biases())):
                return "sgd by keyword"
            for new, old, g in ((ex.get_weights(), m.w, gw), (ex.get_biases(), m.b, gb)):
                if not all(abs(a - (b - lr * d)) <= 1e-5 * (1 + abs(d)) for a, b, d in zip(new, old, g)):
                    return "sgd: %s after %s with gradient %s" % (new, old, g)
            m.w, m.b = ex.get_weights(), ex.get_biases()
            return ""
        op("sgd", sgd)
        op("sgd-bad", lambda ex, m: refused(ex.sgd, [[0.5] * s.n], [], 0.1, 1, "MSE") or refused(ex.sgd, [[0.5] * s.n], [[0.5] * s.m], 0.1, 0, "MSE") or refused(ex.sgd, [[0.5] * s.n], [[0.5] * s.m], 0.1, 1, "XX") or refused(ex.sgd, [[0.5] * s.n], [[0.5] * s.m], -0.1, 1, "MSE") or types(ex.sgd, [[0.5] * s.n]))

    nin = s.n - m0.eph_n

    def call_bad(ex, m):
        return refused(ex, [t.up(1.)] * (nin + 1)) or (nin and refused(ex, [t.up(1.)] * (nin - 1))) or refused(ex, ["x"] * (nin + 1)) or types(ex, [None] * nin) or types(ex, "abc" if False else 1)
    op("call-bad", call_bad)

    def strings(ex, m):
        names = ["x", "y", "z"][:nin]
        out = ex(names)
        if len(out) != s.m or out != ex(tuple(names)):
            return "%s" % out
        p = POINTS[0]
        env = dict(zip(names + m.symb, p[:nin] + m.eph))
        k = 0
        for i in range(s.n, s.nodes):
            if m.nb:
                env["b%d" % i] = m.b[i - s.n]
            for j in range(s.ar(i)):
                if m.nw:
                    env["w%d_%d" % (i, j)] = m.w[k]
                k += 1
        for o, want in zip(out, m.value(p[:nin])):
            try:
                got = eval(o, dict(ref.FUN, __builtins__={}), env)
            except (ZeroDivisionError, OverflowError):
                continue
            if math.isfinite(got) and not close(got, want):
                return "formula %s is %s, the value %s" % (o, got, want)
        return ""
    op("strings", strings)

    def losses(ex, m):
        pts = [q[:nin] for q in POINTS]
        for P in (pts, tuple(map(tuple, pts)), np.array(pts)) if base(m.kind) == "double" else (pts,):
            L = [[0.25 + i + j for j in range(s.m)] for i in range(2)]
            LL = np.array(L) if isinstance(P, np.ndarray) else [[t.up(v) for v in l] for l in L]
            PP = P if isinstance(P, np.ndarray) else [[t.up(v) for v in q] for q in P]
            want = sum((a - b) ** 2 for q, l in zip(pts, L) for a, b in zip(m.value(q), l)) / 2 / s.m
            got = t.down(ex.loss(PP, LL, "MSE"))
            if got is None or not close(got, want, 1e-8):
                return "MSE %s instead of %s" % (got, want)
            if t.down(ex.loss(points=PP, labels=LL, loss="MSE")) != got and math.isfinite(got):
                return "MSE by keyword"
        U = lambda v: [[t.up(a) for a in b] for b in v]
        r = refused(ex.loss, U(pts), U(L[:1]), "MSE") or refused(ex.loss, U(pts), U(L), "mse") or refused(ex.loss, [], [], "MSE") or types(ex.loss, U(pts), U(L)) or refused(ex.loss, U(pts), [[t.up(1.)] * (s.m + 1)] * 2, "MSE")
        if r:
            return r
        out = [m.value(q) for q in pts]
        if all(abs(v) < 50 for o in out for v in o):
            L = [[1. if j == i % s.m else 0. for j in range(s.m)] for i in range(2)]
            want = 0.
            for o, l in zip(out, L):
                mx = max(o)
                z = sum(math.exp(v - mx) for v in o)
                want -= sum(b * (a - mx - math.log(z)) for a, b in zip(o, l))
            got = t.down(ex.loss(U(pts), U(L), "CE"))
            if got is None or not close(got, want / 2, 1e-8):
                return "CE %s instead of %s" % (got, want / 2)
        return ""
    op("loss", losses)
    return O


def histories(kind, shape, eph, names, depth):
    m0 = Model(kind, shape, eph, names)
    O = operations(m0)
    s, t = m0.s, m0.T
    ks = kset(kind, names)()
    w0 = "%s %s eph%d %s: " % (kind, shape, eph, names)

    def make():
        a = [s.n - eph, s.m, s.r, s.c, s.l, s.arity, ks]
        if kind == "ann" or "weighted" in kind:
            return cls(kind)(*a, 11)
        return cls(kind)(*a, eph, 11)
    ex0 = make()
    structure(ex0, m0, w0)
    m0.x = ex0.get()
    check(m0.legal(m0.x), "initial", w0 + "%s" % m0.x)
    m0.eph = [t.down(v) for v in ex0.eph_val]
    check(len(m0.eph) == eph and all(v is not None and -10 <= v <= 10 for v in m0.eph), "initial", w0 + "constants %s" % m0.eph)
    bad = observe(ex0, m0)
    check(not bad, "initial", w0 + bad)
    for seq in itertools.product(range(len(O)), repeat=depth):
        if len(seq) > 1 and (O[seq[0]][0] in QUIET):
            continue  # operations that change nothing are explored last only
        ex, m = make(), m0.copy()
        if eph:
            ex.eph_val = [t.up(1.5 - i) for i in range(eph)]
            m.eph = [1.5 - i for i in range(eph)]
        R.states += 1
        twins = []
        for k, i in enumerate(seq):
            R.transitions += 1
            c = COPIES[(sum(seq) + k) % len(COPIES)]
            twins.append((c[0], c[1](ex), m.copy()))
            name = "%s%s: " % (w0, [O[j][0] for j in seq[:k + 1]])
            try:
                bad = O[i][1](ex, m) or ""
            except Exception as e:
                bad = "%s: %s" % (type(e).__name__, e)
            if not check(not bad, "operation", lambda: name + bad):
                break
            bad = observe(ex, m)
            if not check(not bad, "state", lambda: name + bad):
                break
        else:
            for n, c, cm in twins:
                bad = observe(c, cm)
                check(not bad and type(c) is type(ex), "copy", lambda: "%s%s of before: %s" % (w0, n, bad))
            R.traces += 1
        pmc.alive() if R.states % 64 == 0 else None


QUIET = {"set-bad", "f-bad", "mut-bad", "mut-none", "eph-bad", "w-bad", "b-bad", "w-idx-bad", "out-f-bad", "n-active", "sgd-bad", "call-bad", "strings", "loss", "random0", "active0", "cgene0", "fgene0", "ogene0"}


def constructors(kind):
    names = ["sum", "tanh"] if kind == "ann" else ["sum", "mul"]
    ks = kset(kind, names)()
    C = cls(kind)
    plain = kind in ("double", "gdual_double", "gdual_vdouble")
    t = T(kind)
    for n, m, r, c, l in itertools.product((1, 2), (1, 2), (1, 2), (1, 2), (1, 3)):
        for ar in (1, 2, [2] * c, [1, 3][:c]):
            if kind == "ann" and isinstance(ar, int):
                check(raises(TypeError, C, n, m, r, c, l, ar, ks, 5), "constructor", "ann with a scalar arity")
                continue
            for eph in (0, 1, 2) if plain else (0,):
                R.states += 1
                R.transitions += 4
                w = "%s(%d,%d,%d,%d,%d,%s,eph%d): " % (kind, n, m, r, c, l, ar, eph)
                mod = Model(kind, (n + eph, m, r, c, l, ar), eph, names)
                kw = dict(inputs=n, outputs=m, rows=r, cols=c, levels_back=l, arity=ar, kernels=ks)
                if plain:
                    a = C(n, m, r, c, l, ar, ks, eph, 5)
                    b = C(seed=5, n_eph=eph, **kw)
                    d = C(n_eph=eph, **kw)
                    e = C(n, m, r, c, l, ar, ks, eph)
                else:
                    a = C(n, m, r, c, l, ar, ks, 5)
                    b = C(seed=5, **kw)
                    d = C(**kw)
                    e = C(n, m, r, c, l, ar, ks)
                for o in (a, b, d, e):
                    structure(o, mod, w)
                    check(mod.legal(o.get()), "constructor", w + str(o.get()))
                    check(o.eph_symb == ["c%d" % (i + 1) for i in range(eph)] and len(o.eph_val) == eph, "constructor", w + "constants %s" % o.eph_symb)
                check(a.get() == b.get() and [t.down(v) for v in a.eph_val] == [t.down(v) for v in b.eph_val], "seed", w + "%s and %s" % (a.get(), b.get()))
                a.mutate_random(3)
                b.mutate_random(3)
                check(a.get() == b.get(), "seed", w + "mutations differ")
                if ar == 2:
                    del kw["arity"]
                    f = C(seed=5, **(dict(kw, n_eph=eph) if eph else kw))
                    structure(f, mod, w + "default arity: ")
                    f.mutate_random(3)
                    check(f.get() == a.get(), "defaults", w)
                R.traces += 1
    # what is not legal
    good = dict(inputs=2, outputs=1, rows=1, cols=2, levels_back=2, arity=[2, 2], kernels=ks, seed=3)
    C(**good)
    for k in ("inputs", "outputs", "rows", "cols", "levels_back"):
        check(raises(ValueError, C, **dict(good, **{k: 0})), "illegal", "%s: no %s" % (kind, k))
        for v in (-1, 1.5, "2", None):
            check(raises(TypeError, C, **dict(good, **{k: v})), "illegal", "%s: %s=%r" % (kind, k, v))
        check(raises(TypeError, C, **{a: b for a, b in good.items() if a != k}), "illegal", "%s: without %s" % (kind, k))
    check(raises(ValueError, C, **dict(good, arity=[2])), "illegal", "short arity")
    check(raises(ValueError, C, **dict(good, arity=[2, 0])), "illegal", "zero arity")
    check(raises(ValueError, C, **dict(good, kernels=[])), "illegal", "no kernels")
    check(raises(TypeError, C, **dict(good, kernels=["sum"])), "illegal", "names for kernels")
    other = kset("gdual_double" if base(kind) != "gdual_double" else "double", ["sum"])()
    check(raises(TypeError, C, **dict(good, kernels=other)), "illegal", "kernels of another type")
    check(isinstance(C(), C), "constructor", "default")


def kernels(kind):
    t = T(kind)
    KS = getattr(dcgpy, "kernel_set_" + kind)
    names = ["sum", "diff", "mul", "div", "pdiv", "sig", "tanh", "ReLu", "ELU", "ISRU", "sin_nu", "cos_nu", "gaussian_nu", "inv_sum", "abs", "step", "sin", "cos", "log", "exp", "gaussian", "sqrt", "psqrt"]
    V = [-2.5, -0.75, 0.5, 1.25, 3.]
    ok = []
    for f in names:
        R.states += 1
        try:
            ks = KS([f])
        except ValueError:
            check(kind != "double" and f in NUMBERS_ONLY, "kernel", "%s refused" % f)
            continue
        ok.append(f)
        k = ks()[0]
        check(len(ks()) == 1 and repr(k) == f and str(k) == f, "kernel", "%s is %s" % (f, k))
        for n in (1, 2, 3):
            for v in itertools.product(V, repeat=n):
                R.transitions += 1
                got, want = t.down(k([t.up(a) for a in v])), ref.K[f](list(v))
                check(got is not None and close(got, want), "kernel-value", lambda: "%s%s: %s instead of %s" % (f, v, got, want))
            syms = ["x", "y", "z"][:n]
            v = V[2:2 + n]
            got = eval(k(syms), dict(ref.FUN, __builtins__={}), dict(zip(syms, v)))
            check(close(got, ref.K[f](v)), "kernel-print", "%s: %s" % (f, k(syms)))
            check(k(tuple(syms)) == k(syms), "kernel-print", f)
        for n, c in COPIES:
            e = c(k)
            check(repr(e) == f and e(["x", "y"]) == k(["x", "y"]) and type(e) is type(k), "kernel-copy", "%s %s" % (n, f))
        R.traces += 1
    for bad in ("", "SUM", "sum ", "add", "relu"):
        check(raises(ValueError, KS, [bad]), "kernel-set", "'%s' accepted" % bad)
    check(raises(TypeError, KS, [1]) and raises(TypeError, KS, "sum", 1), "kernel-set", "types")
    # histories of kernel sets
    for start in ([], ["sum"], ["mul", "sum"], ok[:5]):
        for seq in itertools.product(range(6), repeat=3):
            R.states += 1
            a, l = KS(start), list(start)
            old = []
            for i in seq:
                R.transitions += 1
                if i < 2:
                    a.push_back(ok[i])
                    l.append(ok[i])
                elif i == 2:
                    a.push_back(kernel=KS(["sin"])()[0])
                    l.append("sin")
                elif i == 3:
                    old.append((a, list(l)))
                    a = COPIES[len(l) % 4][1](a)
                elif i == 4:
                    check(raises(ValueError, a.push_back, "nope") and raises(TypeError, a.push_back, 3), "kernel-set", "push_back of nonsense")
                else:
                    x = a()
                    x.append(KS(["exp"])()[0])  # (a list of its own)
                for b, m in old + [(a, l)]:
                    check([str(k) for k in b()] == m, "kernel-set", lambda: "%s instead of %s" % (b(), m))
                    check([str(b[j]) for j in range(len(m))] == m, "kernel-set-index", lambda: str(m))
                    check(raises(IndexError, b.__getitem__, len(m)) and raises((IndexError, TypeError), b.__getitem__, 2 ** 40), "kernel-set-index", "beyond the end")
                    check([str(k) for k in b] == m, "kernel-set-iteration", lambda: str(m))
            R.traces += 1


def body():
    deep = 3 if R.thorough else 2
    for kind in KINDS:
        pmc.case("constructors " + kind, constructors, kind)
    for kind in ("double", "gdual_double", "gdual_vdouble"):
        pmc.case("kernels " + kind, kernels, kind)
    for kind in KINDS:
        for shape in ((2, 1, 1, 2, 2, 2), (2, 2, 2, 2, 1, [2, 1]), (3, 2, 1, 2, 3, [1, 2])):
            for names in (["sum", "tanh", "sig"],) if kind == "ann" else (["sum", "diff", "mul"], ["mul", "exp"]):
                for eph in (0, 1, 2):
                    if eph >= shape[0] or eph and (kind == "ann" or "weighted" in kind):
                        continue
                    pmc.case("histories %s %s %d %s" % (kind, shape, eph, names), histories, kind, shape, eph, names, deep)


pmc.main(body)
