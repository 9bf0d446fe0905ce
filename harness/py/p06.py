"""simplify: the simplified formulas of every small expression are the functions the printed ones are"""
import mpmath
import sympy

import dcgpy
import pmc
from pyaudi import gdual_double, gdual_vdouble
from pmc import R, check
from ref import Shape

mpmath.mp.dps = 40
mp = mpmath


class NotFinite(Exception):
    pass


def real(f, ok=lambda x: True):
    def g(x):
        if isinstance(x, mp.mpc) or not mp.isfinite(x) or not ok(x):
            raise NotFinite()
        return f(x)
    return g


# the functions of printed formulas: over the reals ...
PR = {"sin": real(mp.sin), "cos": real(mp.cos), "tanh": real(mp.tanh), "exp": real(mp.exp), "log": real(mp.log, lambda x: x > 0), "sqrt": real(mp.sqrt, lambda x: x >= 0),
      "abs": real(abs), "sig": real(lambda x: 1 / (1 + mp.exp(-x))), "ReLu": real(lambda x: max(x, mp.mpf(0))), "ELU": real(lambda x: mp.exp(x) - 1 if x < 0 else x),
      "ISRU": real(lambda x: x / mp.sqrt(1 + x * x)), "step": real(lambda x: mp.mpf(0) if x < 0 else mp.mpf(1))}


def cr(f):
    """a real function at a number that may carry a vanishing imaginary part"""
    def g(x):
        if isinstance(x, mp.mpc):
            if abs(x.imag) > mp.mpf(10) ** -25:
                raise NotFinite()
            x = x.real
        return f(x)
    return g


# ... and of simplified ones, where complex intermediate values may appear
SI = {"sin": mp.sin, "cos": mp.cos, "tan": mp.tan, "tanh": mp.tanh, "sinh": mp.sinh, "cosh": mp.cosh, "exp": mp.exp, "log": mp.log, "sqrt": mp.sqrt, "Abs": abs, "sign": cr(mp.sign), "I": mp.mpc(0, 1),
      "cot": mp.cot, "coth": mp.coth, "atan": mp.atan, "pi": mp.pi, "E": mp.e, "re": mp.re, "im": mp.im, "sig": cr(PR["sig"]), "ReLu": cr(PR["ReLu"]), "ELU": cr(PR["ELU"]), "ISRU": cr(PR["ISRU"]), "step": cr(PR["step"]),
      "nan": mp.nan, "oo": mp.inf, "zoo": mp.nan, "Max": max, "Min": min, "Heaviside": cr(PR["step"]), "sec": mp.sec, "csc": mp.csc, "arg": mp.arg}


class Num(mp.mpf):
    pass


def lift(s):
    """numbers of a formula, exactly"""
    import re
    return re.sub(r"(?<![A-Za-z_0-9.])(\d+\.?\d*(?:[eE][-+]?\d+)?)", r"mpf('\1')", s)


def value(text, fun, env):
    try:
        v = eval(lift(text), dict(fun, mpf=mp.mpf, __builtins__={}), env)
    except (ZeroDivisionError, OverflowError, NotFinite, ValueError):
        return None
    if not isinstance(v, (mp.mpf, mp.mpc)):
        v = mp.mpmathify(v)
    if isinstance(v, mp.mpc):
        if abs(v.imag) > mp.mpf(10) ** -20 * (1 + abs(v)):
            return None
        v = v.real
    return v if mp.isfinite(v) else None


POINTS = [[0.75, 1.375, 2.125, 0.40625], [-0.625, 0.875, -1.25, 1.75], [1.625, -2.25, 0.3125, -0.5]]
W = [0.5, -1.5, 2.0, 1.25, -0.75, 3.0, 0.25, -2.0, 1.0, 0.0, 4.0, -0.5]
NAMES = [["x", "y", "z"], ["y", "x", "a"], ["x1", "x10", "x"], ["E", "I", "S"], ["N", "beta", "Q"]]


def make(kind, s, n_eph, names):
    ks = getattr(dcgpy, "kernel_set_" + kind.replace("weighted_", ""))(names)()
    cls = getattr(dcgpy, "expression_" + kind)
    if kind.startswith("weighted"):
        return cls(s.n, s.m, s.r, s.c, s.l, s.arity, ks, 7)
    return cls(s.n - n_eph, s.m, s.r, s.c, s.l, s.arity, ks, n_eph, 7)


def explore(kind, shape, n_eph, kernels, cap, near, variants):
    s = Shape(*shape, nf=len(kernels))
    ex = make(kind, s, n_eph, kernels)
    weighted = kind.startswith("weighted")
    lift_ = (lambda v: v) if kind.endswith("_double") and "gdual" not in kind or kind == "double" else (lambda v: gdual_vdouble([v])) if "vdouble" in kind else (lambda v: gdual_double(v))
    nin = s.n - n_eph
    for num, x in enumerate(s.chromosomes(cap, near)):
        pmc.alive()
        ex.set(x)
        R.states += 1
        names = NAMES[num % len(NAMES)][:nin]
        symb = ["c1", "c2"][:n_eph]
        if n_eph:
            if num % 3 == 1:
                symb = ["k2", "k1"][:n_eph]
            ex.eph_symb = symb
            ex.eph_val = [lift_(0.5 + i) for i in range(n_eph)]
        if weighted:
            wts = [W[(i * 5 + num) % len(W)] for i in range(len(ex.get_weights()))]
            ex.set_weights([lift_(v) for v in wts])
            # the weight of each connection, by name
            wv, i = {}, 0
            for node in range(s.n, s.nodes):
                for j in range(s.ar(node)):
                    wv["w%d_%d" % (node, j)] = mp.mpf(wts[i])
                    i += 1
        else:
            wv = {}
        printed = ex(list(names))
        all_names = names + symb
        for subs in ((False, True) if weighted else (False,)):
            for k in sorted({0, 1, s.n, n_eph} if variants else {0, s.n} if num % 2 else {0, 1}):
                R.transitions += 1
                erc = [POINTS[0][(i + k) % 4] * 2 - 1 for i in range(k)]
                a_names, a_erc = list(names), list(erc)
                w = "%s %s eph%d %s %s %s subs=%d erc=%s: " % (kind, shape, n_eph, kernels, x, names, subs, erc)
                out = ex.simplify(a_names, subs, a_erc) if (subs or k) else ex.simplify(a_names)
                check(a_names == names and a_erc == erc, "arguments", w + "arguments changed")
                if not check(len(out) == s.m, "size", w + str(len(out))):
                    continue
                gone = set(all_names[s.n - k:]) | (set(wv) if subs else set())
                for i in range(s.m):
                    e = out[i]
                    free = {str(t) for t in e.free_symbols}
                    check(free <= (set(all_names) | set(wv)) - gone, "symbols", w + "%s has %s" % (e, sorted(free)))
                    text = sympy.sstr(e, full_prec=True)
                    for p in POINTS:
                        env = {t: mp.mpf(v) for t, v in zip(all_names, p)}
                        for j in range(k):
                            env[all_names[s.n - k + j]] = mp.mpf(erc[j])
                        env.update(wv)
                        want = value(printed[i], PR, env)
                        if want is None or abs(want) > 1e8:
                            pmc.count("not finite")
                            continue
                        # only the free symbols may matter
                        env2 = {t: v for t, v in env.items() if t in free}
                        got = value(text, {t: f for t, f in SI.items() if t not in all_names}, env2)
                        pmc.count("values")
                        check(got is not None and abs(got - want) <= mp.mpf(10) ** -8 * (1 + abs(want)), "value", lambda: w + "output %d: '%s' simplified to '%s': %s instead of %s at %s" % (i, printed[i], e, got, want, p))
        check(ex.get() == x and ex(list(names)) == printed, "unchanged", lambda: "%s %s %s" % (kind, shape, x))
        if weighted:
            got = ex.get_weights()
            check([getattr(v, "constant_cf", v) for v in got] == [[v] if "vdouble" in kind else v for v in wts], "unchanged", lambda: "weights %s" % got)
        R.traces += 1


def errors():
    for kind in ("double", "gdual_double", "gdual_vdouble", "weighted_double", "weighted_gdual_double", "weighted_gdual_vdouble"):
        for n, eph in ((1, 0), (2, 0), (1, 1), (2, 2)):
            if eph and kind.startswith("weighted"):
                continue
            s = Shape(n + eph, 1, 1, 2, 2, 2, 2)
            ex = make(kind, s, eph, ["sum", "mul"])
            for k in range(0, n + eph + 3):
                for e in range(0, n + eph + 3):
                    R.transitions += 1
                    names = ["x%d" % i for i in range(k)]
                    good = k == n and e <= n + eph
                    try:
                        ex.simplify(names, False, [1.] * e)
                        check(good, "errors", "%s n%d eph%d accepted %d symbols, %d constants" % (kind, n, eph, k, e))
                    except ValueError as x:
                        check(not good, "errors", "%s n%d eph%d refused %d symbols, %d constants: %s" % (kind, n, eph, k, e, x))
            R.states += 1
    R.traces += 1


ARITH = ["sum", "diff", "mul", "div"]
SETS = [ARITH, ["sum", "sin", "exp"], ["mul", "log", "sqrt"], ["diff", "sig", "tanh"], ["sum", "pdiv", "gaussian"], ["mul", "cos", "ReLu"], ["diff", "ELU", "ISRU"], ["div", "abs", "step", "psqrt"]]
SHAPES = [(1, 1, 1, 2, 2, 2), (2, 1, 1, 2, 2, 2), (2, 2, 2, 2, 2, 2), (2, 1, 1, 2, 2, [3, 2]), (2, 1, 2, 2, 1, [1, 3]), (3, 2, 2, 1, 1, 2), (2, 2, 1, 3, 2, [2, 1, 2])]


def body():
    t = R.thorough
    for shape in SHAPES:
        for i, k in enumerate(SETS):
            for kind in ("double", "gdual_double", "gdual_vdouble"):
                for eph in (0, 1, 2):
                    if eph >= shape[0]:
                        continue
                    if kind != "double" and {"pdiv", "abs", "step", "psqrt"} & set(k):
                        continue  # only for numbers
                    cap, near = (60, 1) if not t else (700, 2)
                    if kind != "double" and not t:
                        if (i + eph) % 3:
                            continue
                        cap, near = 20, 0
                    elif i and not t:
                        cap, near = 40, 1 if i % 2 and shape[0] < 3 else 0
                    pmc.case("%s %s %d %s" % (kind, shape, eph, k), explore, kind, shape, eph, k, cap, near, False)
    for shape in SHAPES:
        for i, k in enumerate(SETS[:3]):
            for kind in ("weighted_double", "weighted_gdual_double", "weighted_gdual_vdouble"):
                cap, near = (60, 1) if not t else (500, 2)
                if (kind != "weighted_double" or i) and not t:
                    cap, near = 10, 0
                pmc.case("%s %s %s" % (kind, shape, k), explore, kind, shape, 0, k, cap, near, False)
    pmc.case("variants", explore, "double", (3, 1, 1, 2, 2, 2), 2, ARITH, 50, 1, True)
    pmc.case("weighted variants", explore, "weighted_double", (3, 1, 1, 2, 2, 2), 0, ARITH, 50, 1, True)
    pmc.case("errors", errors)


pmc.main(body)
