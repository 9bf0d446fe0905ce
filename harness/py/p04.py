"""The gym and the conversions as seen from Python"""
import itertools
import math
import struct

import numpy as np

import dcgpy
import pmc
from pmc import R, check, close, raises

PI, E = math.pi, math.e
sin, cos, exp = math.sin, math.cos, math.exp


def sal(x):
    s, c = sin(x[0]), cos(x[0])
    return exp(-x[0]) * x[0] ** 3 * c * s * (c * s * s - 1.)


# name: (size, domains, formula)
SYNTHETIC = {
    "koza_quintic": (10, [(-3., 3.)], lambda x: x[0] ** 5 - 2. * x[0] ** 3 + x[0]),
    "P1": (10, [(1., 3.)], lambda x: x[0] ** 5 - PI * x[0] ** 3 + x[0]),
    "P2": (10, [(0.1, 5.)], lambda x: x[0] ** 5 - PI * x[0] ** 3 + 2. * PI / x[0]),
    "P3": (10, [(-0.9, 1.)], lambda x: (E * x[0] ** 5 + x[0] ** 3) / (x[0] + 1.)),
    "P4": (10, [(-1., 1.)], lambda x: sin(PI * x[0]) + 1. / x[0]),
    "P5": (10, [(1., 3.)], lambda x: E * x[0] ** 5 - PI * x[0] ** 3 + x[0]),
    "P6": (10, [(-2.1, 1.)], lambda x: (E * x[0] ** 2 - 1.) / (PI * (x[0] + 2.))),
    "P7": (10, [(-1., 1.)], lambda x: cos(PI * x[0]) + sin(E * x[0])),
    "kotanchek": (100, [(0.3, 4.)] * 2, lambda x: exp(-(x[0] - 1.) ** 2) / (1.2 + (x[1] - 2.5) ** 2)),
    "salutowicz": (100, [(0.05, 10.)], sal),
    "salutowicz2d": (601, [(0.05, 10.)] * 2, lambda x: sal(x) * (x[1] - 5.)),
    "uball5d": (1024, [(0.05, 6.05)] * 5, lambda x: 10. / (5. + sum((z - 3.) ** 2 for z in x))),
    "ratpol3d": (300, [(0.05, 2.), (1., 2.), (0.05, 2.)], lambda x: 30. * (x[0] - 1.) * (x[2] - 1.) / (x[1] ** 2 * (x[0] - 10.))),
    "sinecosine": (30, [(0.1, 5.9)] * 2, lambda x: 6. * sin(x[0]) * cos(x[1])),
    "ripple": (300, [(0.05, 6.05)] * 2, lambda x: (x[0] - 3.) * (x[1] - 3.) + 2. * sin((x[0] - 4.) * (x[1] - 4.))),
    "ratpol2d": (50, [(0.05, 6.05)] * 2, lambda x: ((x[0] - 3.) ** 4 + (x[1] - 3.) ** 3 - (x[1] - 3.)) / ((x[1] - 2.) ** 4 + 10.)),
}


def chwirut(a, b, c):
    return lambda x: exp(-a * x) / (b + c * x)


# name: (size, certified model, certified residual sum of squares)
MEASURED = {
    "chwirut1": (214, chwirut(1.9027818370E-01, 6.1314004477E-03, 1.0530908399E-02), 2.3844771393E+03, 1e-9),
    "chwirut2": (54, chwirut(1.6657666537E-01, 5.1653291286E-03, 1.2150007096E-02), 5.1304802941E+02, 1e-9),
    "daniel_wood": (6, lambda x: 7.6886226176E-01 * x ** 3.8604055871E+00, 4.3173084083E-03, 1e-9),
    "gauss1": (250, lambda x: 98.778210871 * exp(-0.010497276517 * x) + 100.48990633 * exp(-((x - 67.481111276) / 23.129773360) ** 2) + 71.994503004 * exp(-((x - 178.99805021) / 18.389389025) ** 2), 1.3158222432E+03, 1e-9),
    "kirby2": (151, lambda x: (1.6745063063 - 0.13927397867 * x + 2.5961181191E-03 * x ** 2) / (1. - 1.7241811870E-03 * x + 2.1664802578E-05 * x ** 2), 3.9050739624, 1e-9),
    "lanczos2": (24, lambda x: 0.096251029939 * exp(-1.0057332849 * x) + 0.86424689056 * exp(-3.0078283915 * x) + 1.5529016879 * exp(-5.0028798100 * x), 2.2299428125E-11, 1e-8),
    "misra1b": (14, lambda x: 3.3799746163E+02 * (1. - 1. / (1. + 3.9039091287E-04 * x / 2.) ** 2), 7.5464681533E-02, 1e-9),
}
NAMES = list(SYNTHETIC) + list(MEASURED) + ["luca1"]


def fnv(a):
    h = 1469598103934665603
    for b in struct.pack("<%dd" % a.size, *a.ravel().tolist()):
        h = (h ^ b) * 1099511628211 % 2 ** 64
    return h


def data(name):
    r = getattr(dcgpy, "generate_" + name)()
    check(isinstance(r, tuple) and len(r) == 2, "shape", name)
    return r


def one(name):
    R.states += 1
    X, Y = data(name)
    n, d = (SYNTHETIC[name][0], len(SYNTHETIC[name][1])) if name in SYNTHETIC else (MEASURED[name][0], 1) if name in MEASURED else (631, 1)
    ok = all(isinstance(a, np.ndarray) and a.dtype == np.float64 for a in (X, Y)) and X.shape == (n, d) and Y.shape == (n, 1)
    if not check(ok, "shape", lambda: "%s: %s %s" % (name, X.shape, Y.shape)):
        return
    R.outcomes.add(fnv(X))
    if name in SYNTHETIC:
        dom, f = SYNTHETIC[name][1:]
        for x, y in zip(X.tolist(), Y.tolist()):
            R.transitions += 1
            check(close(y[0], f(x), 1e-9, 1e-12) and all(a <= v <= b for v, (a, b) in zip(x, dom)), "label", lambda: "%s at %s is %s" % (name, x, y))
        if d == 1:
            (a, b), = dom
            check(all(close(x, a + i * (b - a) / (n - 1), 1e-12, 1e-12) for i, x in enumerate(X[:, 0])), "grid", name)
        else:
            check(all(len(set(X[:, j])) == n for j in range(d)), "grid", name)
    elif name in MEASURED:
        f, rss, tol = MEASURED[name][1:]
        s = math.fsum((y - f(x)) ** 2 for x, y in zip(X[:, 0], Y[:, 0]))
        R.transitions += n
        check(close(s, rss, tol, 0.), "residual", lambda: "%s: %s instead of %s" % (name, s, rss))
    else:
        check((fnv(X), fnv(Y)) == (7525044123715117031, 9503046884021504693), "data", name)
    # whatever was asked before, and whatever was done to what was given
    X0, Y0 = X.copy(), Y.copy()
    for a, b in itertools.product(NAMES, repeat=2) if R.thorough else ((a, name) for a in NAMES):
        R.transitions += 1
        for q in data(a) + data(b):
            q[:] = -7.
        U, V = data(name)
        check(U.tobytes() == X0.tobytes() and V.tobytes() == Y0.tobytes(), "history", lambda: "%s after %s, %s" % (name, a, b))
    check(X.tobytes() == X0.tobytes() and Y.tobytes() == Y0.tobytes(), "history", name)
    # it converts, and makes a problem
    check(dcgpy.to_vv(X) == X.tolist() and np.array_equal(dcgpy.from_vv(dcgpy.to_vv(Y)), Y), "conversion", name)
    udp = dcgpy.symbolic_regression(X, Y, 1, 2, 3, 2, dcgpy.kernel_set_double(["sum"])())
    e = udp.get_cgp()
    lo = [int(v) for v in udp.get_bounds()[0]]
    want = sum((2 * x[0] - y[0]) ** 2 for x, y in zip(X.tolist(), Y.tolist())) / n
    lo[-1] = d
    check(e.get_n() == d and e.get_m() == 1 and close(udp.fitness(lo)[0], want, 1e-9), "problem", lambda: "%s: %s instead of %s" % (name, udp.fitness(lo), want))
    R.traces += 1


def conversions():
    vals = [0., -0.5, 1e300, 5e-324, math.inf, -math.inf, math.nan, 1. / 3.]
    for n, m in itertools.product(range(1, 5), repeat=2):
        for off in range(len(vals)):
            v = [[vals[(off + i * m + j) % len(vals)] for j in range(m)] for i in range(n)]
            for form in (lambda a: a, lambda a: tuple(map(tuple, a)), np.array, lambda a: [np.array(r) for r in a]):
                R.states += 1
                R.transitions += 1
                a = dcgpy.from_vv(form(v))
                check(a.shape == (n, m) and a.dtype == np.float64 and a.tobytes() == np.array(v).tobytes(), "from_vv", lambda: "%s: %s" % (v, a))
            big = np.full((2 * n + 1, 3 * m + 1), 77.)
            big[1::2, 1::3] = v
            back = np.array(v)
            lays = [np.array(v), np.asfortranarray(v), big[1::2, 1::3], np.array(v)[::-1][::-1], np.array(v).T.copy().T, np.array(v)[::-1, ::-1].copy()[::-1, ::-1]]
            ro = np.array(v)
            ro.setflags(write=False)
            lays.append(ro)
            for a in lays + [v, tuple(map(tuple, v))]:
                R.states += 1
                R.transitions += 1
                got = dcgpy.to_vv(a)
                check(isinstance(got, list) and all(isinstance(r, list) for r in got) and len(got) == n and np.array(got).tobytes() == back.tobytes(), "to_vv", lambda: "%s: %s" % (v, got))
                check(np.array(a).tobytes() == back.tobytes(), "to_vv", "the argument changed")
            w = np.arange(n * m).reshape(n, m)
            for t in (np.int64, np.uint8, np.float32, np.int16, bool):
                a = w.astype(t)
                check(dcgpy.to_vv(a) == a.astype(float).tolist(), "to_vv", lambda: "%s" % t)
    R.traces += 1
    for bad in ([], [[]], [[], []], [[1.], []], [[], [1.]], [[1.], [1., 2.]], [[1., 2.], [1.]], [[1., 2.], [1., 2.], [1., 2., 3.]]):
        R.states += 1
        check(raises(ValueError, dcgpy.from_vv, bad), "refused", "from_vv(%s)" % bad)
    for bad in (3, None, [1., 2.], ["a"], [["a"]], [[None]], "ab"):
        R.states += 1
        check(raises((TypeError, ValueError), dcgpy.from_vv, bad), "refused", "from_vv(%r)" % (bad,))
    for bad in (np.zeros(3), np.zeros((2, 2, 2)), np.float64(3.), 3., [1., 2.], [[[1.]]], np.zeros(0)):
        R.states += 1
        check(raises(ValueError, dcgpy.to_vv, bad), "refused", "to_vv(%s)" % (bad,))
    for bad in (None, "abc", [["a"]], [[1., 2.], [3.]], {}):
        R.states += 1
        check(raises((TypeError, ValueError), dcgpy.to_vv, bad), "refused", "to_vv(%r)" % (bad,))
    check(dcgpy.to_vv(np.zeros((0, 3))) == [] and dcgpy.to_vv(np.zeros((2, 0))) == [[], []], "to_vv", "empty")


def body():
    for n in NAMES:
        pmc.case("data " + n, one, n)
    pmc.case("conversions", conversions)


pmc.main(body)
