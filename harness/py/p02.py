"""Kernels and phenotype corrections written in Python"""
import copy
import functools
import itertools
import math
import operator
import pickle

import dcgpy
import pmc
import ref
from num import COPIES, Oops, T, base, cls, kset
from pmc import R, check, close, raises
from ref import Shape

V = [-2.5, -0.75, 0.5, 1.25]
POINTS = [[0.75, 1.375, 2.125], [-0.625, 0.875, -1.25], [1.5, -2.25, 0.5]]


# ---- callables of many kinds, all written so that floats and duals will do --------------------------------------------
def weird(x):
    r = x[0] * 0.5
    for k, v in enumerate(x[1:]):
        r = r - v * (k + 2.)
    return r


def weird_s(x):
    return "(%s*0.5%s)" % (x[0], "".join("-%s*%d" % (v, k + 2) for k, v in enumerate(x[1:])))


class Affine:
    """with a state that changes when it is called with 999 (which adds one to the factor)"""

    def __init__(self, k):
        self.k = [k]

    def __call__(self, x):
        if isinstance(x[0], float) and x[0] == 999.:
            self.k[0] += 1.
        return x[0] * self.k[0] + x[-1]

    def method(self, x):
        return x[0] * self.k[0] - x[-1]

    def symbol(self, x):
        return "(%s*%r+%s)" % (x[0], self.k[0], x[-1])

    def method_symbol(self, x):
        return "(%s*%r-%s)" % (x[0], self.k[0], x[-1])


def scaled(x, by):
    return x[0] * by


def scaled_s(x, by):
    return "(%s*%r)" % (x[0], by)


def callables():
    c = 1.25
    a = Affine(2.5)
    return {
        "function": (weird, weird_s, "weird"),
        "lambda": (lambda x: x[-1] * 2., lambda x: "(%s*2)" % x[-1], "twice the last"),
        "closure": (lambda x: x[0] - c, lambda x: "(%s-%r)" % (x[0], c), "minus"),
        "partial": (functools.partial(scaled, by=-1.5), functools.partial(scaled_s, by=-1.5), ""),
        "object": (a, a.symbol, "affine"),
        "method": (a.method, a.method_symbol, "affine method"),
        "builtin": (operator.itemgetter(0), operator.itemgetter(0), "first"),
        "named as another": (lambda x: x[0] * x[-1], lambda x: "(%s*%s)" % (x[0], x[-1]), "sum"),
    }


def env(sy, v):
    return dict(zip(sy, v))


def ev(f, e):
    return eval(f, dict(ref.FUN, __builtins__={}), e)


def K(kind):
    return getattr(dcgpy, "kernel_" + base(kind))


def same(t, a, want):
    a = t.down(a)
    return a is not None and close(a, want)


# ---- kernels ----------------------------------------------------------------------------------------------------------
def one(kind, which):
    t, (f, s, name) = T(kind), callables()[which]
    made = [("position", K(kind)(f, s, name)), ("keyword", K(kind)(name=name, callable_s=s, callable_f=f))]
    for n, c in COPIES:
        made.append((n, c(made[0][1])))
    ks = kset(kind, ["mul"])
    ks.push_back(made[0][1])
    ks.push_back("sum")
    ks.push_back(kernel=made[0][1])
    check([str(k) for k in ks()] == ["mul", name, "sum", name], "set", "%s" % ks)
    made += [("set[1]", ks[1]), ("set()[3]", ks()[3])]
    for n, c in COPIES:
        made.append(("set " + n, c(ks)[1]))
    ex = cls(kind)(1, 1, 1, 1, 1, 2, ks(), 0, 5)
    made.append(("expression", ex.get_f()[1]))
    for n, c in COPIES:
        made.append(("expression " + n, c(ex).get_f()[3]))
    for how, k in made:
        w = "%s %s %s: " % (kind, which, how)
        R.states += 1
        check(repr(k) == name and str(k) == name, "name", w + repr(k))
        for n in (1, 2, 3):
            for v in itertools.product(V, repeat=n):
                R.transitions += 1
                got, want = k([t.up(a) for a in v]), f(list(v))
                check(same(t, got, want), "kernel-value", lambda: "%s%s: %s instead of %s" % (w, v, got, want))
            for sy in (["x", "y", "z"][:n], ("cat", "dog", "eel")[:n]):
                R.transitions += 1
                check(k(sy) == s(list(sy)), "kernel-string", lambda: "%s%s: %s" % (w, sy, k(sy)))
        R.traces += 1


def independence():
    """histories of changes to the callable that kernels were made from, and of the kernels to each other"""
    H = ["change", "trip0", "trip1", "trip2", "copy01", "pickle02", "set", "take", "expr"]
    for seq in itertools.product(range(len(H)), repeat=4 if not R.thorough else 5):
        R.states += 1
        a = Affine(2.)
        k0 = dcgpy.kernel_double(a, a.symbol, "a")
        objs, val = {0: k0}, {0: 2.}
        ks, kv, ex, xv = None, None, None, None
        for i in seq:
            R.transitions += 1
            h = H[i]
            if h == "change":
                a.k[0] += 10.
            elif h[:4] == "trip":
                j = int(h[4])
                if j in objs:
                    objs[j]([999.])
                    val[j] += 1.
            elif h == "copy01":
                objs[1], val[1] = copy.copy(objs[0]), val[0]
            elif h == "pickle02":
                objs[2], val[2] = pickle.loads(pickle.dumps(objs[0])), val[0]
            elif h == "set":
                ks, kv = dcgpy.kernel_set_double(["sum"]), val[0]
                ks.push_back(objs[0])
            elif h == "take" and ks is not None:
                objs[1], val[1] = ks[1], kv
            elif h == "expr":
                ex, xv = dcgpy.expression_double(1, 1, 1, 1, 1, 2, [objs[0]], 0, 3), val[0]
                ex.set([0, 0, 0, 1])
            w = "%s: " % [H[q] for q in seq]
            for j in objs:
                check(objs[j]([1., 0.]) == val[j], "independence", lambda: "%skernel %d has factor %s instead of %s" % (w, j, objs[j]([1., 0.]), val[j]))
            if ks is not None:
                check(ks[1]([1., 0.]) == kv and ks()[1]([1., 0.]) == kv, "independence", lambda: w + "the set changed")
            if ex is not None:
                check(ex([1.])[0] == xv + 1., "independence", lambda: "%sthe expression has %s instead of %s" % (w, ex([1.]), xv + 1.))
        check(objs[0](["u", "v"]) == "(u*2.0+v)", "independence", "symbol %s" % objs[0](["u", "v"]))
        R.traces += 1


def errors(kind):
    t = T(kind)
    x = [t.up(0.5), t.up(1.5)]

    class Bad:
        def __init__(self, e):
            self.e = e

        def __call__(self, v):
            raise self.e("no")

    for e in (Oops, ValueError, TypeError, KeyError, ZeroDivisionError, IndexError, RuntimeError, StopIteration, AssertionError):
        R.states += 1
        k = K(kind)(Bad(e), Bad(e), "bad")

        def exact(f, *a):
            try:
                f(*a)
            except BaseException as g:
                return type(g) is e
            return False
        ks = kset(kind, ["sum"])
        ks.push_back(k)
        ex = cls(kind)(2, 1, 1, 2, 2, 2, ks(), seed=3)
        good, bad = [0, 0, 1, 0, 2, 1, 3], [0, 0, 1, 1, 2, 1, 3]
        for c in [(lambda v: v)] + [c for n, c in COPIES]:
            R.transitions += 6
            kk, ee = c(k), c(ex)
            check(exact(kk, x) and exact(kk, ["a", "b"]), "error", "%s of a kernel" % e)
            ee.set(bad)
            check(exact(ee, x) and exact(ee, ["a", "b"]) and exact(ee.loss, [x], [x[:1]], "MSE"), "error", "%s of an expression" % e)
            ee.set(good)
            check(same(t, ee(x)[0], 3.5) and ee.get() == good, "error", "after %s" % e)
            # of a correction
            if "weighted" not in kind:
                def pc(v, g):
                    raise e("no")
                ee.set_phenotype_correction(pc)
                check(exact(ee, x) and exact(ee.loss, [x], [x[:1]], "MSE"), "error", "%s of a correction" % e)
                d = c(ee)
                check(exact(d, x), "error", "%s of a correction" % e)
                ee.set(bad)
                ee.set_phenotype_correction(lambda v, g: g(v))
                check(exact(ee, x), "error", "%s through a correction" % e)
                ee.unset_phenotype_correction()
                ee.set(good)
                check(same(t, ee(x)[0], 3.5), "error", "after %s" % e)
        R.traces += 1
    # answers that are no answers
    for r in (None, "x", [1.], object(), {}):
        R.states += 1
        k = K(kind)(lambda v: r, lambda v: 3, "odd")
        check(raises(Exception, k, x) and raises(Exception, k, ["a", "b"]), "error", "an answer %r" % r)
        if "weighted" not in kind:
            ex = cls(kind)(2, 1, 1, 2, 2, 2, kset(kind, ["sum"])(), 0, 3)
            ex.set_phenotype_correction(lambda v, g: r if r != [1.] else 1.)
            check(raises(Exception, ex, x), "error", "a correction's answer %r" % r)
            ex.unset_phenotype_correction()
            ex(x)
    check(raises(TypeError, K(kind)) is False and raises(TypeError, K(kind), weird) and raises(TypeError, K(kind), weird, weird_s) and raises(TypeError, K(kind), weird, weird_s, 3), "error", "construction")


# ---- in expressions ---------------------------------------------------------------------------------------------------
def mixed(kind, shape, eph, names):
    """names: built-in kernels, or those of callables() in brackets"""
    t, s = T(kind), Shape(*shape, nf=len(names))
    C = callables()
    ks, fun = kset(kind, []), []
    for n in names:
        if n[0] == "[":
            f, q, l = C[n[1:-1]]
            ks.push_back(K(kind)(f, q, l))
            fun.append(f)
        else:
            ks.push_back(n)
            fun.append(ref.K[n])
    args = [s.n - eph, s.m, s.r, s.c, s.l, s.arity, ks()]
    weighted = "weighted" in kind
    ex = cls(kind)(*args, 7) if weighted else cls(kind)(*args, eph, 7)
    if eph:
        ex.eph_val = [t.up(1.75 - i) for i in range(eph)]
    nw = sum(s.ar(i) for i in range(s.n, s.nodes)) if weighted else 0
    W = [0.5 + 0.25 * (i % 5) - 0.625 * (i % 2) for i in range(nw)]
    if nw:
        ex.set_weights([t.up(v) for v in W])
    off, k = {}, 0
    for i in range(s.n, s.nodes):
        off[i] = k
        k += s.ar(i)
    objs = [("", ex)] + [(n, c(ex)) for n, c in COPIES]
    nin = s.n - eph
    sy = ["x", "y", "z"][:nin]
    for j, x in enumerate(s.chromosomes(3000 if R.thorough else 250, 2)):
        how, e = objs[j % len(objs)]
        R.states += 1
        e.set(x)
        for p in POINTS:
            R.transitions += 1
            want = s.eval(x, p[:nin] + [1.75 - i for i in range(eph)], fun, (lambda i, q: W[off[i] + q]) if nw else None)
            got = e([t.up(v) for v in p[:nin]])
            ok = len(got) == s.m and all(same(t, g, v) for g, v in zip(got, want))
            check(ok, "value", lambda: "%s %s %s %s at %s: %s instead of %s" % (kind, how, names, x, p, got, want))
            d = dict(env(sy, p), **{"c%d" % (i + 1): 1.75 - i for i in range(eph)})
            for i in range(s.n, s.nodes):
                for q in range(s.ar(i)):
                    if nw:
                        d["w%d_%d" % (i, q)] = W[off[i] + q]
            for o, v in zip(e(sy), want):
                try:
                    g = ev(o, d)
                except (ZeroDivisionError, OverflowError):
                    continue
                check(not math.isfinite(g) or close(g, v), "formula", lambda: "%s %s %s %s: %s is %s instead of %s" % (kind, how, names, x, o, g, v))
        L = [[0.5 - i + q for q in range(s.m)] for i in range(3)]
        outs = [s.eval(x, p[:nin] + [1.75 - i for i in range(eph)], fun, (lambda i, q: W[off[i] + q]) if nw else None) for p in POINTS]
        want = sum((a - b) ** 2 for o, l in zip(outs, L) for a, b in zip(o, l)) / 3 / s.m
        got = e.loss([[t.up(v) for v in p[:nin]] for p in POINTS], [[t.up(v) for v in l] for l in L], "MSE")
        check(same(t, got, want), "loss", lambda: "%s %s %s %s: loss %s instead of %s" % (kind, how, names, x, got, want))
        R.traces += 1
        if j % 64 == 0:
            pmc.alive()


# ---- corrections ------------------------------------------------------------------------------------------------------
class Gain:
    """a correction with a state"""

    def __init__(self, k):
        self.k = k

    def __call__(self, x, g):
        return [v * self.k + x[0] for v in g(x)]


def corrections(kind, eph):
    """histories of an expression with corrections that are set, unset, copied and pickled on the way"""
    t = T(kind)
    s = Shape(2 + eph, 2, 1, 2, 2, 2, 3)
    names = ["sum", "mul", "diff"]
    ks = kset(kind, names)()
    fun = [ref.K[n] for n in names]
    h = 0.375

    def num(v):  # (the model works with floats)
        return v
    gain = Gain(-1.5)
    PCS = [lambda x, g: [g(x)[0] * x[0], g(x)[1] - x[1]],
           lambda x, g: [a - b for a, b in zip(g([x[0] + h, x[1]]), g([x[0], x[1] * 2.]))],
           lambda x, g: [x[1], x[0] * 3.],
           gain,
           lambda x, g: list(reversed(g(list(reversed(x)))))]
    OPS = ["pc%d" % i for i in range(5)] + ["unset", "x0", "x1", "eph", "copy", "pickle", "gain"]
    X = [[0, 0, 1, 1, 0, 2, 3, 2], [2, 1, 0, 1, s.n, 1, s.n, s.n + 1]]
    X[0] = [0, 0, 1, 1, 0, s.n, s.n + 1, s.n]
    depth = 4 if R.thorough else 3
    for seq in itertools.product(range(len(OPS)), repeat=depth):
        if not eph and OPS[seq[0]] == "eph":
            continue
        R.states += 1
        ex = cls(kind)(2, 2, 1, 2, 2, 2, ks, eph, 3)
        gain.k = -1.5
        PCS[3] = Gain(-1.5)
        x, E, pc, mk = X[0], [0.5 + i for i in range(eph)], None, None
        ex.set(x)
        if eph:
            ex.eph_val = [t.up(v) for v in E]
        twins = []
        for i in seq:
            R.transitions += 1
            o = OPS[i]
            if o[:2] == "pc":
                pc = PCS[int(o[2])] if o != "pc3" else Gain(PCS[3].k)
                ex.set_phenotype_correction(PCS[int(o[2])]) if i % 2 else ex.set_phenotype_correction(pc=PCS[int(o[2])])
            elif o == "unset":
                pc = None
                ex.unset_phenotype_correction()
            elif o[0] == "x":
                x = X[int(o[1])]
                ex.set(x)
            elif o == "eph":
                E = [-v - 1. for v in E]
                ex.eph_val = [t.up(v) for v in E]
            elif o in ("copy", "pickle"):
                twins.append((ex, x, E, pc))
                ex = copy.deepcopy(ex) if o == "copy" else pickle.loads(pickle.dumps(ex))
            else:
                PCS[3].k += 1.  # (must not be seen by corrections already set)
            for e, xx, EE, pp in twins + [(ex, x, E, pc)]:
                g = lambda v: s.eval(xx, list(v) + EE, fun)
                for p in POINTS[:2]:
                    v = p[:2]
                    want = pp(v, g) if pp else g(v)
                    got = e([t.up(q) for q in v])
                    check(len(got) == 2 and all(same(t, a, b) for a, b in zip(got, want)), "correction", lambda: "%s %s at %s: %s instead of %s" % (kind, [OPS[q] for q in seq], v, got, want))
        g = lambda v: s.eval(x, list(v) + E, fun)
        L = [[0.25, -0.5], [1.5, 0.75]]
        P = [p[:2] for p in POINTS[:2]]
        want = sum((a - b) ** 2 for p, l in zip(P, L) for a, b in zip(pc(p, g) if pc else g(p), l)) / 4
        got = ex.loss([[t.up(v) for v in p] for p in P], [[t.up(v) for v in l] for l in L], "MSE")
        check(same(t, got, want), "correction-loss", lambda: "%s %s: %s instead of %s" % (kind, [OPS[q] for q in seq], got, want))
        R.traces += 1
        if R.states % 64 == 0:
            pmc.alive()


def body():
    kinds = ["double", "gdual_double", "gdual_vdouble"]
    for kind in kinds:
        for which in callables():
            pmc.case("kernel %s %s" % (kind, which), one, kind, which)
    pmc.case("independence", independence)
    for kind in kinds + ["weighted_double"]:
        pmc.case("errors " + kind, errors, kind)
    for kind in kinds + ["weighted_" + k for k in kinds]:
        for shape in ((2, 1, 1, 2, 2, 2), (2, 2, 2, 2, 1, [2, 1]), (3, 2, 1, 3, 4, [1, 2, 3])):
            for eph in (0, 1):
                if eph and "weighted" in kind:
                    continue
                for names in (["[function]", "mul"], ["sum", "[closure]", "[object]"], ["sin", "[method]", "[partial]", "diff"], ["[named as another]", "sum", "[lambda]", "[builtin]"]):
                    pmc.case("mixed %s %s %d %s" % (kind, shape, eph, names), mixed, kind, shape, eph, names)
    for kind in kinds:
        for eph in (0, 1):
            pmc.case("corrections %s %d" % (kind, eph), corrections, kind, eph)


pmc.main(body)
