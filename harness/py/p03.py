"""Symbolic regression problems and their algorithms as seen from Python"""
import copy
import itertools
import math
import pickle
import re

import numpy as np
import pygmo as pg

import dcgpy
import pmc
import ref
from num import COPIES, Oops
from pmc import R, check, close, raises
from ref import Shape

POINTS = [[0.75, 1.375], [-0.625, 0.875], [1.5, -1.25], [0.5, 2.125]]
LABELS = [[0.25, 1.5], [0.75, -0.5], [-1.25, 0.625], [2., 1.]]


def flat(e):
    return "[" + ", ".join(e) + "]"


# ---- the model ------------------------------------------------------------------------------------------------------
class Model:
    def __init__(self, shape, eph, names, multi, loss, points, labels):
        self.s, self.eph, self.names, self.multi, self.lname = Shape(*shape, nf=len(names)), eph, names, multi, loss
        self.P, self.L, self.pc = points, labels, None
        self.nin = self.s.n - eph

    def value(self, x, p):
        E, c = list(x[:self.eph]), [int(v) for v in x[self.eph:]]
        g = lambda v: self.s.eval(c, list(v) + E, [ref.K[n] for n in self.names])
        return self.pc(list(p), g) if self.pc else g(p)

    def loss(self, x):
        t = 0.
        for p, l in zip(self.P, self.L):
            o = self.value(x, p)
            if self.lname == "MSE":
                t += sum((a - b) ** 2 for a, b in zip(o, l)) / len(l)
            else:
                if not all(math.isfinite(v) and abs(v) < 100 for v in o):
                    return None
                mx = max(o)
                z = sum(math.exp(v - mx) for v in o)
                t -= sum(b * (a - mx - math.log(z)) for a, b in zip(o, l))
        return t / len(self.P)

    def derivative(self, x, *idx):
        """central differences"""
        h = 1e-3
        if not idx:
            return self.loss(x)
        y, z, yy, zz = (list(x) for _ in range(4))
        i = idx[0]
        y[i] += h
        z[i] -= h
        yy[i] += 2 * h
        zz[i] -= 2 * h
        a, b, c, d = (self.derivative(q, *idx[1:]) for q in (y, z, yy, zz))
        if None in (a, b, c, d):
            return None
        return (8 * (a - b) - (c - d)) / 12 / h

    def complexity(self, x):
        return float(len(self.s.active([int(v) for v in x[self.eph:]])[1]))

    def bounds(self):
        B = self.s.bounds()
        return [-10.] * self.eph + [float(b[0]) for b in B], [10.] * self.eph + [float(b[-1]) for b in B]


def near(a, b, tol=2e-4):
    return abs(a - b) <= tol * (1 + abs(b))


def query(udp, m, x, w, deep=True):
    """every query of the problem at x"""
    form = [list, tuple, np.array][R.transitions % 3]
    R.transitions += 1
    want = m.loss(x)
    f = udp.fitness(form(x))
    ok = len(f) == 1 + m.multi and (want is None or close(f[0], want, 1e-8)) and (not m.multi or f[1] == m.complexity(x))
    check(ok, "fitness", lambda: "%s%s: %s instead of %s" % (w, x, f, want))
    out = [m.value(x, p) for p in m.P]
    A = np.array(m.P)
    for pts, sel in ((m.P, slice(None)), ([tuple(p) for p in m.P], slice(None)), (A, slice(None)), (np.asfortranarray(A), slice(None)), (A[::-1], slice(None, None, -1)), (A[1:2], slice(1, 2)),
                     ([m.P[0]], slice(0, 1)), (A[:2], slice(0, 2))):
        got = udp.predict(pts, form(x))
        o_ = out[sel]
        ok = isinstance(got, np.ndarray) and got.shape == (len(o_), m.s.m) and all(close(a, b) for a, b in zip(got.ravel(), [v for o in o_ for v in o]))
        check(ok, "predict", lambda: "%s%s: %s instead of %s" % (w, x, got, out))
    for pt in (m.P[1], tuple(m.P[1]), np.array(m.P[1])):
        got = udp.predict(points=pt, chromosome=form(x))
        ok = isinstance(got, np.ndarray) and got.shape == (m.s.m,) and all(close(a, b) for a, b in zip(got, out[1]))
        check(ok, "predict", lambda: "%s%s: %s instead of %s" % (w, x, got, out[1]))
    g = udp.gradient(form(x))
    check(len(g) == m.eph, "gradient", lambda: "%s%s: %s" % (w, x, g))
    if not deep:
        return
    H = udp.hessians(form(x))
    pairs = [(i, j) for i in range(m.eph) for j in range(i + 1)]
    check(len(H) == 1 + m.multi and len(H[0]) == len(pairs), "hessians", lambda: "%s%s: %s" % (w, x, H))
    if all(math.isfinite(v) and abs(v) < 1e3 for o in out for v in o) and want is not None:
        for i in range(m.eph):
            d = m.derivative(x, i)
            check(d is None or abs(d) > 1e4 or near(g[i], d), "gradient", lambda: "%s%s: %s, not %s" % (w, x, g, d))
        for k, (i, j) in enumerate(pairs):
            d = m.derivative(x, i, j)
            check(d is None or abs(d) > 1e4 or near(H[0][k], d, 1e-3), "hessians", lambda: "%s%s: %s, not %s" % (w, x, H, d))
    e = udp.get_cgp()
    e.set([int(v) for v in x[m.eph:]])
    sy = ["x%d" % i for i in range(m.nin)]
    raw = e(sy)
    check(udp.pretty(form(x)) == flat(raw), "pretty", lambda: "%s%s: %s" % (w, x, udp.pretty(x)))
    d = dict(zip(sy, m.P[0]), **{"c%d" % (i + 1): x[i] for i in range(m.eph)})
    pr = udp.prettier(form(x))
    pc, m.pc = m.pc, None
    want = m.value(x, m.P[0])
    m.pc = pc
    for s in (udp.pretty(form(x)), pr):
        try:
            v = eval(s.replace("**", "**"), dict(ref.FUN, __builtins__={}), d)
        except (ZeroDivisionError, OverflowError):
            continue
        check(len(v) == m.s.m and all(not math.isfinite(a) or close(a, b) for a, b in zip(v, want)), "pretty", lambda: "%s%s: %s is %s, not %s" % (w, x, s, v, want))


def make(shape, eph, names, multi, loss, points, labels, batches=0):
    s = Shape(*shape, nf=len(names))
    return dcgpy.symbolic_regression(points, labels, s.r, s.c, s.l, s.arity[0], dcgpy.kernel_set_double(names)(), eph, multi, batches, loss)


def describe(udp, m, w):
    s = m.s
    lo, hi = udp.get_bounds()
    check((list(lo), list(hi)) == m.bounds(), "bounds", lambda: w + "%s %s" % (lo, hi))
    check(udp.get_nobj() == 1 + m.multi and udp.get_nix() == s.size, "dimensions", lambda: w + "%s %s" % (udp.get_nobj(), udp.get_nix()))
    e = udp.get_cgp()
    got = (e.get_n(), e.get_m(), e.get_rows(), e.get_cols(), e.get_levels_back(), e.get_arity(), [str(k) for k in e.get_f()], len(e.eph_val))
    check(got == (s.n, s.m, s.r, s.c, s.l, s.arity, m.names, m.eph), "structure", lambda: w + "%s" % (got,))
    gs = udp.gradient_sparsity()
    check(gs.shape == (m.eph, 2) and gs.dtype.kind in "ui" and gs.tolist() == [[0, i] for i in range(m.eph)], "sparsity", lambda: w + "%s" % gs)
    hs = udp.hessians_sparsity()
    check(len(hs) == 1 + m.multi and hs[0].tolist() == [[i, j] for i in range(m.eph) for j in range(i + 1)] and all(h.ndim == 2 and h.shape[1] == 2 and h.dtype.kind in "ui" for h in hs), "sparsity", lambda: w + "%s" % hs)
    check(udp.get_name() == "a CGP symbolic regression problem", "name", w)
    x = udp.get_extra_info()
    check(repr(udp) == x and all(re.search(a, x) for a in (r"\(points\): +%d\n" % m.nin, r"\(labels\): +%d\n" % s.m, r"Data size: +%d\n" % len(m.P), r"Loss: +%s\n" % m.lname)) and str(m.names).replace("'", "") in x, "info", lambda: w + x)


# ---- construction -----------------------------------------------------------------------------------------------------
def constructors():
    forms = [("lists", lambda a: a), ("tuples", lambda a: tuple(map(tuple, a))), ("array", np.array), ("fortran", lambda a: np.asfortranarray(np.array(a))),
             ("strided", lambda a: np.repeat(np.array(a), 2, axis=0)[::2]), ("ints", lambda a: [[int(v * 8) for v in b] for b in a]), ("int array", lambda a: np.array([[int(v * 8) for v in b] for b in a])),
             ("float32", lambda a: np.array(a, dtype=np.float32)), ("arrays", lambda a: [np.array(b) for b in a])]
    names = ["sum", "mul", "sin"]
    ks = dcgpy.kernel_set_double(names)()
    for (fn, f), n, m, (r, c, l), ar, eph, multi, loss in itertools.product(forms, (1, 2), (1, 2), ((1, 2, 2), (2, 1, 1), (2, 3, 1)), (2, 3), (0, 1, 2), (False, True), ("MSE", "CE")):
        R.states += 1
        P, L = [p[:n] for p in POINTS], [l_[:m] for l_ in LABELS]
        sc = (lambda a: [[float(int(v * 8)) for v in b] for b in a]) if fn[:3] == "int" else (lambda a: a)
        mod = Model((n + eph, m, r, c, l, ar), eph, names, multi, loss, sc(P), sc(L))
        kw = dict(points=f(P), labels=f(L), rows=r, cols=c, levels_back=l, arity=ar, kernels=ks, n_eph=eph, multi_objective=multi, loss=loss)
        w = "%s %s: " % (fn, {k: v for k, v in kw.items() if k not in ("points", "labels", "kernels")})
        pb = R.states % 2 * 2
        a = dcgpy.symbolic_regression(f(P), f(L), r, c, l, ar, ks, eph, multi, pb, loss)
        b = dcgpy.symbolic_regression(parallel_batches=2 - pb, **kw)
        B = mod.s.bases()
        for udp in (a, b):
            R.transitions += 1
            describe(udp, mod, w)
            for x in B:
                x = [0.5 - i for i in range(eph)] + x
                want, got = mod.loss(x), udp.fitness(x)
                check(len(got) == 1 + multi and (want is None or close(got[0], want, 1e-8)), "fitness", lambda: "%s%s: %s instead of %s" % (w, x, got, want))
        # a number of batches that does not divide the data
        d = dcgpy.symbolic_regression(parallel_batches=3, **kw)
        check(raises(ValueError, d.fitness, [0.] * eph + B[0]), "batches", w)
        R.traces += 1
    # defaults
    R.states += 1
    udp = dcgpy.symbolic_regression(points=POINTS, labels=LABELS, kernels=ks)
    mod = Model((2, 2, 1, 16, 17, 2), 0, names, False, "MSE", POINTS, LABELS)
    describe(udp, mod, "defaults: ")
    for x in mod.s.bases():
        query(udp, mod, x, "defaults: ")
    check(isinstance(dcgpy.symbolic_regression(), dcgpy.symbolic_regression), "defaults", "none")
    # refused
    good = dict(points=POINTS, labels=LABELS, rows=1, cols=2, levels_back=2, arity=2, kernels=ks, n_eph=1, multi_objective=False, parallel_batches=0, loss="MSE")
    dcgpy.symbolic_regression(**good)
    rag = [[1., 2.], [1.]] + POINTS[2:]
    bad = [("points", []), ("labels", []), ("points", POINTS[:3]), ("labels", LABELS[:1]), ("points", rag), ("labels", rag), ("rows", 0), ("cols", 0), ("levels_back", 0), ("arity", 0), ("arity", 1), ("kernels", []), ("loss", "mse"), ("loss", ""), ("loss", "XX"),
           ("points", np.zeros((0, 2))), ("points", np.array(POINTS[:3])), ("labels", np.array(LABELS[:2]))]
    for k, v in bad:
        R.states += 1
        check(raises(ValueError, lambda: dcgpy.symbolic_regression(**dict(good, **{k: v}))), "refused", "%s=%s is not" % (k, v))
    for k, v in [("rows", -1), ("rows", 1.5), ("cols", "2"), ("n_eph", -1), ("kernels", ["sum"]), ("kernels", dcgpy.kernel_set_gdual_double(["sum"])()), ("kernels", None), ("loss", 3), ("arity", [2, 2])]:
        R.states += 1
        check(raises(TypeError, lambda: dcgpy.symbolic_regression(**dict(good, **{k: v}))), "refused", "%s=%s is not" % (k, v))
    for k in ("points", "labels"):
        for v in (np.zeros(4), np.zeros((2, 2, 2)), [1., 2., 3., 4.], "abcd", None):
            R.states += 1
            check(raises((TypeError, ValueError), lambda: dcgpy.symbolic_regression(**dict(good, **{k: v}))), "refused", "%s=%s is not" % (k, v))


# ---- queries ----------------------------------------------------------------------------------------------------------
def queries(shape, eph, names, multi, loss, cap):
    m = Model(shape, eph, names, multi, loss, [p[:shape[0] - eph] for p in POINTS], [l[:shape[1]] for l in LABELS])
    udp = make(shape, eph, names, multi, loss, m.P, m.L)
    w = "%s eph%d %s %s %s: " % (shape, eph, names, multi, loss)
    describe(udp, m, w)
    objs = [udp] + [c(udp) for n, c in COPIES]
    E = [[1.25, -0.75, 0.5][:eph], [-2.5, 0.375, 1.75][:eph]]
    for k, x in enumerate(m.s.chromosomes(cap, 1)):
        R.states += 1
        query(objs[k % len(objs)], m, E[k % 2] + x, w)
        if k % 64 == 0:
            pmc.alive()
        R.traces += 1
    for o in objs:
        describe(o, m, w)
    x = E[0] + m.s.bases()[0]
    # not decision vectors
    for f in (udp.fitness, udp.gradient, udp.hessians, udp.pretty, udp.prettier, lambda v: udp.predict(m.P, v), lambda v: udp.predict(m.P[0], v)):
        R.transitions += 1
        check(raises(ValueError, f, x[:-1]) and raises(ValueError, f, x + [0.]), "refused", w + "decision vectors of the wrong size")
        y = list(x)
        y[-1] = 1000
        check(raises(ValueError, f, y), "refused", w + "illegal genes")
        check(raises(TypeError, f, ["a"]) and raises(TypeError, f, None), "refused", w + "no decision vectors")
    for p in ([m.P[0] + [1.]], [[]], np.zeros((2, m.nin + 1)), m.P[0] + [1.], np.zeros((2, 2, 2))):
        check(raises((ValueError, TypeError), udp.predict, p, x), "refused", w + "points %s" % p)
    query(udp, m, x, w + "after the refusals: ")


# ---- corrections ------------------------------------------------------------------------------------------------------
def histories(shape, eph, names, multi):
    H = ["pc0", "pc1", "pc2", "unset", "fitness", "gradient", "hessians", "predict", "copy", "pickle", "problem"]
    PCS = [lambda x, g: [v * x[0] for v in g(x)], lambda x, g: [a - b for a, b in zip(g([x[0] * 2., x[1]]), g(x))], lambda x, g: [v * v + x[1] for v in g(x)]]
    m = Model(shape, eph, names, multi, "MSE", POINTS, [l[:shape[1]] for l in LABELS])
    X = [[1.25, -0.75][:eph] + x for x in m.s.bases()[1:3]]
    for seq in itertools.product(range(len(H)), repeat=4 if R.thorough else 3):
        R.states += 1
        m.pc, k = None, 0
        udp = make(shape, eph, names, multi, "MSE", m.P, m.L)
        old = []
        x = X[sum(seq) % 2]
        name = [H[i] for i in seq]
        for i in seq:
            R.transitions += 1
            h = H[i]
            if h[:2] == "pc":
                m.pc = PCS[int(h[2])]
                udp.set_phenotype_correction(m.pc)
            elif h == "unset":
                m.pc = None
                udp.unset_phenotype_correction()
            elif h == "fitness":
                check(close(udp.fitness(x)[0], m.loss(x), 1e-8), "history", lambda: "%s: fitness %s instead of %s" % (name, udp.fitness(x), m.loss(x)))
            elif h == "gradient":
                g = udp.gradient(x)
                check(all(near(a, m.derivative(x, j)) for j, a in enumerate(g)), "history", lambda: "%s: gradient %s instead of %s" % (name, g, [m.derivative(x, j) for j in range(eph)]))
            elif h == "hessians":
                g = udp.hessians(x)[0]
                P = [(a, b) for a in range(eph) for b in range(a + 1)]
                check(all(near(v, m.derivative(x, *p), 1e-3) for p, v in zip(P, g)), "history", lambda: "%s: hessian %s instead of %s" % (name, g, [m.derivative(x, *p) for p in P]))
            elif h == "predict":
                g = udp.predict(m.P, x)
                check(all(close(a, b) for a, b in zip(g.ravel(), [v for p in m.P for v in m.value(x, p)])), "history", lambda: "%s: %s" % (name, g))
            else:
                old.append((udp, m.pc))
                udp = copy.deepcopy(udp) if h == "copy" else pickle.loads(pickle.dumps(udp)) if h == "pickle" else pg.problem(udp).extract(dcgpy.symbolic_regression)
        for o, pc in old + [(udp, m.pc)]:
            m.pc = pc
            check(close(o.fitness(x)[0], m.loss(x), 1e-8), "history", lambda: "%s: fitness %s instead of %s in the end" % (name, o.fitness(x), m.loss(x)))
        R.traces += 1
        if R.states % 64 == 0:
            pmc.alive()

    # what a correction raises comes through
    def pc(x, g):
        raise Oops("no")
    udp.set_phenotype_correction(pc)
    for f in (udp.fitness, udp.gradient, udp.hessians, lambda v: udp.predict(m.P[0], v)):
        check(raises(Oops, f, x), "history", "an exception of the correction")
    udp.unset_phenotype_correction()
    m.pc = None
    query(udp, m, x, "after an exception: ")


# ---- algorithms -------------------------------------------------------------------------------------------------------
ARGS = {"es4cgp": ["gen", "max_mut", "ftol", "learn_constants", "seed"], "moes4cgp": ["gen", "max_mut", "ftol", "learn_constants", "seed"],
        "mes4cgp": ["gen", "max_mut", "ftol", "seed"], "momes4cgp": ["gen", "max_mut", "ftol", "seed"], "gd4cgp": ["max_iter", "lr", "lr_min"]}
INFO = {"gen": r"umber of generations: (\S+)", "max_mut": r"umber of active mutations: (\S+)", "ftol": r"\(ftol\): (\S+)", "learn_constants": r"Learn constants\?: (\S+)", "seed": r"Seed: (\S+)",
        "max_iter": r"Maximum number of iterations: (\S+)", "lr": r"Initial learning rate: (\S+)", "lr_min": r"Minimum learning rate: (\S+)"}
VALUES = {"gen": [0, 7], "max_mut": [1, 5], "ftol": [0., 0.25], "learn_constants": [False, True], "seed": [3, 2 ** 32 - 1], "max_iter": [0, 9], "lr": [0.5, 2.], "lr_min": [0.125, 1e-3]}
DEFAULT = {"gen": 1, "max_mut": 4, "ftol": 0., "learn_constants": True, "max_iter": 1, "lr": 1., "lr_min": 1e-3}
BAD = {"max_mut": [0], "ftol": [-0.5, math.nan], "lr": [-1., 0., 1e-3, math.nan], "lr_min": [0., -1., 1., 2., math.nan]}


def told(a):
    """the arguments an algorithm reports"""
    i, r = a.get_extra_info(), {}
    for k, p in INFO.items():
        f = re.search(p, i)
        if f:
            r[k] = f.group(1) == "true" if f.group(1) in ("true", "false") else float(f.group(1))
    return r


def arguments(algo):
    C, names = getattr(dcgpy, algo), ARGS[algo]
    for v in itertools.product(*[VALUES[n] for n in names]):
        want = {n: float(x) for n, x in zip(names, v)}
        made = [C(*v), C(**dict(zip(names, v))), C(*v[:2], **dict(zip(names[2:], v[2:])))]
        made += [c(made[0]) for n, c in COPIES]
        for a in made:
            R.states += 1
            check(told(a) == want, "arguments", lambda: "%s%s: %s" % (algo, v, a.get_extra_info()))
            check(repr(a) == a.get_extra_info() and ("seed" not in names or a.get_seed() == v[-1]) and a.get_log() == [], "arguments", lambda: "%s%s: %r" % (algo, v, a))
            a.set_verbosity(3)
            check("Verbosity: 3" in a.get_extra_info() and told(a) == want, "arguments", algo)
        R.transitions += 1
    for k in range(len(names) + ("seed" not in names)):  # what is left out takes its default
        for sub in itertools.combinations([n for n in names if n != "seed"], k):
            R.states += 1
            d = {n: VALUES[n][1] for n in sub}
            if "lr_min" in names and d.get("lr_min", 1e-3) >= d.get("lr", 1.):
                continue
            t = told(C(**d))
            s = t.pop("seed", 0.)
            check(t == {n: float(d.get(n, DEFAULT[n])) for n in t} and 0 <= s < 2 ** 32, "defaults", lambda: "%s(%s): %s" % (algo, d, t))
    for n in names:
        for b in BAD.get(n, []):
            R.states += 1
            if isinstance(b, float) and math.isnan(b) and n == "ftol":
                continue
            check(raises(ValueError, lambda: C(**{n: b})), "arguments", "%s(%s=%s) accepted" % (algo, n, b))
        for b in ("x", None, [1]) if n != "learn_constants" else ("x", [1]):
            check(raises(TypeError, lambda: C(**{n: b})), "arguments", "%s(%s=%r) accepted" % (algo, n, b))
    check(isinstance(C().get_name(), str) and len(C().get_name()) > 3, "name", algo)
    R.traces += 1


class Sphere:
    def fitness(self, x):
        return [sum(v * v for v in x)]

    def get_bounds(self):
        return ([-1.] * 4, [1.] * 4)


def evolve(algo, shape, eph, size, pc):
    names = ["sum", "mul", "diff"]
    multi = "mo" in algo
    m = Model(shape, eph, names, multi, "MSE", [p[:shape[0] - eph] for p in POINTS], [l[:shape[1]] for l in LABELS])
    C = getattr(dcgpy, algo)
    lo, hi = m.bounds()
    fix = algo == "gd4cgp"

    def algorithm(gen, seed, mut=2, ftol=0., learn=True):
        if fix:
            return C(max_iter=gen, lr=0.5, lr_min=1e-6)
        kw = dict(gen=gen, max_mut=mut, ftol=ftol, seed=seed)
        if "learn_constants" in ARGS[algo]:
            kw["learn_constants"] = learn
        return C(**kw)

    udp = make(shape, eph, names, multi, "MSE", m.P, m.L)
    if pc:
        m.pc = lambda x, g: [v * x[0] for v in g(x)]
        udp.set_phenotype_correction(m.pc)
    prob = pg.problem(udp)
    check(prob.get_nobj() == 1 + multi and prob.get_nix() == m.s.size and prob.get_nx() == eph + m.s.size and prob.has_gradient() and prob.has_hessians(), "problem", algo)
    b = prob.get_bounds()
    check((list(b[0]), list(b[1])) == (lo, hi), "problem", "bounds")
    for seed, gen, learn, ftol in itertools.product((1, 2, 3), (0, 1, 5), (True, False), (0., 1e9)):
        if (not learn or ftol) and fix:
            continue
        if not learn and "learn_constants" not in ARGS[algo]:
            continue
        R.states += 1
        w = "%s %s eph%d size %d seed %d gen %d%s%s%s: " % (algo, shape, eph, size, seed, gen, "" if learn else " no constants", " ftol" if ftol else "", " pc" if pc else "")
        pops = [pg.population(prob, size, seed) for _ in range(4)]
        x0, f0 = [list(x) for x in pops[0].get_x()], [list(f) for f in pops[0].get_f()]
        u = algorithm(gen, 11, learn=learn, ftol=ftol)
        if gen == 5:
            u.set_verbosity(1)
        a = pg.algorithm(u)
        if gen != 5:
            a.set_verbosity(1)
        res = []
        R.transitions += 4
        res.append(a.evolve(pops[0]))
        used = a.extract(C)
        res.append(pg.algorithm(algorithm(gen, 11, learn=learn, ftol=ftol)).evolve(pops[1]))
        res.append(algorithm(gen, 11, learn=learn, ftol=ftol).evolve(pops[2]))
        res.append(pickle.loads(pickle.dumps(algorithm(gen, 11, learn=learn, ftol=ftol))).evolve(pops[3]))
        X = [[list(x) for x in p.get_x()] for p in res]
        check(all(x == X[0] for x in X), "seed", lambda: w + "%s" % X)
        for p in pops:
            check([list(x) for x in p.get_x()] == x0, "argument", w + "the population changed")
        for p in res:
            F = [list(f) for f in p.get_f()]
            for x, f in zip(p.get_x(), F):
                x = list(x)
                ok = all(v == int(v) and l <= v <= h for v, l, h in list(zip(x, lo, hi))[eph:]) and len(x) == eph + m.s.size
                l = m.loss(x) if ok else None
                check(ok and close(f[0], l, 1e-8) and (not multi or f[1] == m.complexity(x)), "population", lambda: "%s%s has %s, not %s" % (w, x, f, l))
            if gen == 0:
                check([list(x) for x in p.get_x()] == x0, "generations", w + "none asked for")
            fin = [f[0] for f in F if math.isfinite(f[0])]
            if multi:
                dom = lambda a, b: a[0] <= b[0] and a[1] <= b[1] and a != b
                check(any(not any(dom(a, b) for a in f0) for b in F), "progress", lambda: "%sfrom %s to %s" % (w, f0, F))
            elif any(math.isfinite(f[0]) for f in f0):
                best = min(f[0] for f in f0 if math.isfinite(f[0]))
                check(fin and min(fin) <= best + 1e-9 * abs(best), "progress", lambda: "%sfrom %s to %s" % (w, best, F))
            if not learn and eph:
                start = {tuple(x[:eph]) for x in x0}
                check(all(tuple(x[:eph]) in start for x in p.get_x()), "constants", lambda: w + "learned %s" % p.get_x())
            if fix:
                check([list(x)[eph:] for x in p.get_x()] == [x[eph:] for x in x0], "constants", w + "genes changed")
        log = used.get_log()
        check(isinstance(log, list) and len(log) <= gen + 1 and (gen == 0 or len(log) >= 1), "log", lambda: w + "%s" % log)
        if ftol:
            check(len(log) <= 2, "log", lambda: w + "%s" % log)
        if log:
            want = {"es4cgp": [int, int, float, "list", str], "mes4cgp": [int, int, float, "list", str], "moes4cgp": [int, int, float, int, float], "momes4cgp": [int, int, float, int, float], "gd4cgp": [int, int, int, float, float, float]}[algo]
            for t in log:
                check(isinstance(t, tuple) and len(t) == len(want) and all((len(v) == eph if k == "list" else isinstance(v, k)) for v, k in zip(t, want)), "log", lambda: w + "%s" % (t,))
            if not fix:
                gens = [t[0] for t in log]
                check(gens == list(range(gens[0], gens[0] + len(gens))) and gens[0] <= 1, "log", lambda: w + "%s" % log)
                if not ftol and all(t[2] > 0 for t in log):
                    check(len(log) >= gen, "log", lambda: w + "%s" % log)
            c = pickle.loads(pickle.dumps(used))
            check(repr(c.get_log()) == repr(log) and c.get_extra_info() == used.get_extra_info(), "pickle", lambda: w + "%s" % c.get_log())
        R.traces += 1
        pmc.alive()
    # what is refused
    a = algorithm(1, 3)
    other = make(shape, eph, names, not multi, "MSE", m.P, m.L)
    check(raises(ValueError, a.evolve, pg.population(pg.problem(Sphere()), 4, 1)), "refused", algo + ": a problem of another kind")
    check(raises(ValueError, pg.algorithm(a).evolve, pg.population(pg.problem(Sphere()), 4, 1)), "refused", algo + ": a problem of another kind")
    check(raises(ValueError, a.evolve, pg.population(pg.problem(other), 4, 1)), "refused", algo + ": another number of objectives")
    if not fix:
        check(raises(ValueError, a.evolve, pg.population(prob, 1, 1)) and raises(ValueError, a.evolve, pg.population(prob, 0, 1)), "refused", algo + ": a population of one")
    else:
        check(raises(ValueError, a.evolve, pg.population(pg.problem(make(shape[:1] + shape[1:], 0, names, False, "MSE", [[p[0]] * shape[0] for p in m.P], m.L)), 4, 1)), "refused", algo + ": no constants")
    if hasattr(a, "set_bfe"):
        a = algorithm(3, 5)
        a.set_bfe(b=pg.bfe(None))
        check("Using bfe: yes" in a.get_extra_info() and "Using bfe: no" in algorithm(3, 5).get_extra_info(), "bfe", algo)
        p = a.evolve(pg.population(prob, size, 2))
        for x, f in zip(p.get_x(), p.get_f()):
            check(close(f[0], m.loss(list(x)), 1e-8), "bfe", "%s: %s has %s" % (algo, x, f))


def threading():
    """(with the serial stand-in for TBB: that the switches can be thrown in any order)"""
    for seq in itertools.product((0, 1), repeat=4):
        for s in seq:
            (dcgpy.disable_threading if s else dcgpy.enable_threading)()
        u = dcgpy.symbolic_regression(POINTS, LABELS, 1, 2, 3, 2, dcgpy.kernel_set_double(["sum"])(), 0, False, 2)
        x = [0, 0, 1, 0, 2, 1, 3, 2]
        m = Model((2, 2, 1, 2, 3, 2), 0, ["sum"], False, "MSE", POINTS, LABELS)
        check(close(u.fitness(x)[0], m.loss(x)), "threading", "%s" % (seq,))
        R.states += 1
        R.transitions += 4
        R.traces += 1
    dcgpy.enable_threading()


def body():
    pmc.case("constructors", constructors)
    for algo in ARGS:
        pmc.case("arguments " + algo, arguments, algo)
    T_ = R.thorough
    for shape in ((2, 1, 1, 2, 2, 2), (2, 2, 2, 2, 1, 2), (3, 1, 1, 3, 3, 2), (3, 2, 1, 2, 2, 3), (4, 1, 2, 1, 1, 2)):
        for eph in (0, 1, 2):
            if eph >= shape[0] or shape[0] - eph > 2:
                continue
            for names in (["sum", "diff", "mul"], ["mul", "sin"], ["tanh", "sum", "exp"]):
                for multi, loss in ((False, "MSE"), (True, "MSE"), (False, "CE"), (True, "CE")):
                    if shape[1] == 1 and loss == "CE" and not T_:
                        continue
                    pmc.case("queries %s %d %s %s %s" % (shape, eph, names, multi, loss), queries, shape, eph, names, multi, loss, 1500 if T_ else 90)
    for shape, eph in (((3, 1, 1, 2, 2, 2), 1), ((4, 2, 1, 2, 3, 2), 2)):
        for multi in (False, True):
            pmc.case("histories %s %d %s" % (shape, eph, multi), histories, shape, eph, ["sum", "mul", "diff"], multi)
    for algo in ARGS:
        for shape, eph in (((3, 1, 1, 3, 3, 2), 1), ((4, 2, 2, 2, 2, 2), 2), ((2, 1, 1, 4, 5, 2), 0)):
            if not eph and algo == "gd4cgp":
                continue
            for size in (4, 2, 7):
                for pc in ((False, True) if shape[0] - eph == 2 else (False,)):
                    pmc.case("evolve %s %s %d %d %s" % (algo, shape, eph, size, pc), evolve, algo, shape, eph, size, pc)
    pmc.case("threading", threading)


pmc.main(body)
