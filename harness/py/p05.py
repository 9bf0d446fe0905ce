"""encode_ffnn: every small network, every assignment of nonlinearities, every order the set of names may take"""
import itertools
import math

import dcgpy
import pmc
import ref
from pmc import R, check

NL = ["tanh", "sig", "ReLu", "ELU", "ISRU", "sum", "sin_nu", "gaussian_nu"]


class Name(str):
    """a name whose place in a set can be chosen"""
    place = {}

    def __hash__(self):
        return Name.place[str(self)]

    def __eq__(self, o):
        return str.__eq__(self, o)


def points(n):
    return [[0.3 + 0.41 * i for i in range(n)], [-1.7 + 0.9 * i for i in range(n)], [0.] * n]


def structure(ex, layers, names):
    """layers of nodes, read off the chromosome from the outputs; or a complaint"""
    x, n, m, g = ex.get(), ex.get_n(), ex.get_m(), ex.get_gene_idx()
    f = [str(k) for k in ex.get_f()]
    cur = x[-m:]
    found = []
    for d in range(len(layers) - 1, -1, -1):
        if len(cur) != layers[d] or len(set(cur)) != len(cur):
            return None, "layer %d is %s" % (d, cur)
        found.insert(0, list(cur))
        nxt = None
        for i in cur:
            if i < n:
                return None, "an input where layer %d should be" % d
            if f[x[g[i]]] != names[d]:
                return None, "neuron of layer %d computes %s instead of %s" % (d, f[x[g[i]]], names[d])
            if ex.get_arity(i) != (layers[d - 1] if d else n):
                return None, "neuron of layer %d has %d connections" % (d, ex.get_arity(i))
            c = x[g[i] + 1:g[i] + 1 + ex.get_arity(i)]
            if nxt is None:
                nxt = c
            if sorted(nxt) != sorted(c) or len(set(c)) != len(c):
                return None, "neurons of layer %d are connected to %s and %s" % (d, nxt, c)
        cur = sorted(nxt)
    if cur != list(range(n)):
        return None, "the first layer is connected to %s" % cur
    return found, ""


def forward(ex, found, names, p):
    x, g = ex.get(), ex.get_gene_idx()
    val = dict(enumerate(p))
    for d, layer in enumerate(found):
        for i in layer:
            a = [ex.get_weight(i, k) * val[x[g[i] + 1 + k]] for k in range(ex.get_arity(i))]
            a[0] += ex.get_bias(i)
            val[i] = ref.K[str(names[d])](a)
    return [val[i] for i in found[-1]]


def network(n, m, hidden, names, lb):
    R.transitions += 1
    h, k = list(hidden), list(names)
    ex = dcgpy.encode_ffnn(n, m, h, k, lb)
    w = "n%d m%d %s %s lb%d: " % (n, m, hidden, list(map(str, names)), lb)
    if not check(isinstance(ex, dcgpy.expression_ann), "type", w + str(type(ex))):
        return
    check(h == list(hidden) and k == list(names), "arguments", w + "the arguments were changed")
    check(ex.get_n() == n and ex.get_m() == m, "size", w + "%d inputs, %d outputs" % (ex.get_n(), ex.get_m()))
    sizes = list(hidden) + [m]
    found, bad = structure(ex, sizes, names)
    if not check(found is not None, "structure", w + bad):
        return
    check(sorted(ex.get_active_nodes()) == sorted(list(range(n)) + sum(found, [])), "active", w + str(ex.get_active_nodes()))
    nw = sum(a * b for a, b in zip([n] + sizes, sizes))
    # every neuron, weight and bias of the network has its own place
    wts = ex.get_weights()
    ex.set_weights([0.3 * math.sin(1.3 * i + 0.4) + (0.2 if i % 2 else -0.2) for i in range(len(wts))])
    ex.set_biases([0.25 * math.cos(0.7 * i) for i in range(len(ex.get_biases()))])
    for p in points(n):
        want, got = forward(ex, found, names, p), ex(p)
        check(len(got) == m and all(pmc.close(a, b) for a, b in zip(want, got)), "value", lambda: w + "at %s: %s, network: %s" % (p, got, want))
    if "step" not in names:
        p = points(n)[0]
        count = 0
        for i in sum(found, []):
            for j in range(ex.get_arity(i)):
                count += 1
                old = ex.get_weight(i, j)
                ex.set_weight(i, j, old + 0.5)
                want, got = forward(ex, found, names, p), ex(p)
                check(all(pmc.close(a, b) for a, b in zip(want, got)), "weight", lambda: w + "weight %d,%d" % (i, j))
                ex.set_weight(i, j, old)
        check(count == nw, "weights", w + "%d weights" % count)
    check(ex.n_active_weights() == nw if hasattr(ex, "n_active_weights") else True, "n_active", w)
    R.traces += 1


def refused(w, *a):
    R.transitions += 1
    h, k = list(a[2]), list(a[3])
    a = list(a)
    a[2], a[3] = h, k
    try:
        dcgpy.encode_ffnn(*a)
    except ValueError:
        check(True, "refused")
        return
    except Exception as e:
        pmc.fail("refused", "%s %s: %s" % (w, a, type(e).__name__))
        return
    pmc.fail("refused", "%s %s: accepted" % (w, a))


def body():
    big = R.thorough
    sizes = (1, 2, 3, 4) if big else (1, 2, 3)
    hid = [()] + [(a,) for a in sizes] + list(itertools.product(sizes, repeat=2)) + (list(itertools.product((1, 2, 3), repeat=3)) if big else [(1, 2, 3), (3, 1, 2), (2, 3, 1), (2, 2, 2)])
    for n in (1, 2, 3, 4) if big else (1, 2, 3):
        for h in hid:
            def shapes(n=n, h=h):
                for m in (1, 2, 3):
                    L = len(h) + 1
                    sets = list(itertools.product(NL[:3], repeat=L)) if L <= 3 else [tuple(NL[(i + s) % 3] for i in range(L)) for s in range(3)] + [tuple(NL[(i * i + s) % 2] for i in range(L)) for s in range(2)]
                    sets += [tuple(NL[(i + s) % len(NL)] for i in range(L)) for s in range(3, len(NL))]
                    for names in sets:
                        for lb in (1, 2, L, L + 2):
                            network(n, m, h, names, lb)
                            R.states += 1
            pmc.case("network n%d %s" % (n, list(h)), shapes)
    # the order in which a set gives back its elements is not specified: try all
    for h in [(), (2,), (2, 1), (1, 3, 2)]:
        def orders(h=h):
            L = len(h) + 1
            for names in itertools.product(NL[:4], repeat=L) if L < 4 else [("tanh", "sig", "ReLu", "ELU"), ("ELU", "tanh", "ELU", "sig"), ("sig", "sig", "ReLu", "tanh")]:
                d = sorted(set(names))
                for perm in itertools.permutations(range(len(d))):
                    Name.place = dict(zip(d, perm))
                    network(2, 2, h, [Name(s) for s in names], 1)
                    R.states += 1
        pmc.case("orders %s" % list(h), orders)

    def errors():
        R.states += 1
        for h in [(), (2,), (2, 3)]:
            L = len(h) + 1
            for k in range(0, 5):
                if k != L:
                    refused("length", 2, 1, h, ["tanh"] * k, 1)
            for pos in range(L):
                for bad in ("", "Tanh", "relu", "sigm", "tanh "):
                    k = ["tanh"] * L
                    k[pos] = bad
                    refused("unknown", 2, 1, h, k, 1)
            # names that are kernels, but not for networks
            for bad in ("mul", "div", "sin", "log", "pdiv", "exp"):
                k = ["tanh"] * L
                k[-1] = bad
                refused("no nonlinearity", 2, 1, h, k, 1)
            refused("no inputs", 0, 1, h, ["tanh"] * L, 1)
            refused("no outputs", 2, 0, h, ["tanh"] * L, 1)
            refused("no levels", 2, 1, h, ["tanh"] * L, 0)
            for i in range(len(h)):
                g = list(h)
                g[i] = 0
                refused("empty layer", 2, 1, g, ["tanh"] * L, 1)
        R.traces += 1
    pmc.case("errors", errors)


pmc.main(body)
