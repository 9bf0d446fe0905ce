"""visualize: the drawn graphs are the encoded ones (graphviz and matplotlib are replaced by recorders)"""
import itertools
import math
import sys
import types

import dcgpy
import pmc
from pmc import R, check
from ref import Shape


# ---- recorders ------------------------------------------------------------------------------------------------------
class Digraph:
    def __init__(self, *a, **k):
        self.nodes, self.edges, self.subs = {}, [], []

    def node(self, name, label=None, _attributes=None, **attrs):
        d = self.nodes.setdefault(name, {})
        if label is not None:
            d["label"] = label
        d.update(_attributes or {})
        d.update(attrs)

    def edge(self, tail, head, label=None, _attributes=None, **attrs):
        d = dict(_attributes or {})
        d.update(attrs)
        if label is not None:
            d["label"] = label
        self.edges.append((tail, head, d))

    def edges_(self, pairs):
        for a, b in pairs:
            self.edge(a, b)

    def attr(self, *a, **k):
        pass

    def subgraph(self, graph=None, **k):
        self.subs.append(graph)
        for n, d in graph.nodes.items():
            self.nodes.setdefault(n, {}).update(d)
        self.edges += graph.edges


class Circle:
    def __init__(self, xy, radius=5, color=None, fill=True, alpha=None, **k):
        unit(alpha)
        self.xy, self.radius, self.color, self.fill, self.alpha = (float(xy[0]), float(xy[1])), float(radius), color, fill, alpha


def unit(alpha):
    # (matplotlib refuses what is no opacity)
    if alpha is not None and not 0 <= alpha <= 1:
        raise ValueError("alpha must be between 0 and 1, inclusive, but got %s" % alpha)


class Axes:
    def __init__(self):
        self.lines, self.artists, self.texts = [], [], []
        self.xlim = self.ylim = None

    def grid(self, *a, **k):
        pass

    def plot(self, xs, ys, *a, alpha=None, color=None, **k):
        unit(alpha)
        assert all(math.isfinite(v) for v in list(xs) + list(ys)), "coordinates %s %s" % (xs, ys)
        self.lines.append(([(float(a), float(b)) for a, b in zip(xs, ys)], alpha, color))

    def add_artist(self, c):
        self.artists.append(c)
    add_patch = add_artist

    def text(self, x, y, s, **k):
        self.texts.append((float(x), float(y), s))

    def set_xlim(self, *a):
        self.xlim = a[0] if len(a) == 1 else a

    def set_ylim(self, *a):
        self.ylim = a[0] if len(a) == 1 else a


gv = types.ModuleType("graphviz")
gv.Digraph = Digraph
plt = types.ModuleType("matplotlib.pyplot")
last = {}


def subplots(*a, **k):
    last["ax"] = Axes()
    return object(), last["ax"]


plt.subplots, plt.Circle = subplots, Circle
plt.axis = lambda *a, **k: None
plt.text = lambda x, y, s, **k: last["ax"].text(x, y, s, **k)
mpl = types.ModuleType("matplotlib")
mpl.pyplot = plt
sys.modules.update({"graphviz": gv, "matplotlib": mpl, "matplotlib.pyplot": plt})


# ---- graphs ---------------------------------------------------------------------------------------------------------
SIGN = {"sum": "+", "diff": "-", "mul": "*", "div": "/", "pdiv": "/"}


def visible(G):
    drawn = {n: d for n, d in G.nodes.items() if d.get("style") != "invis"}
    edges = [(a, b, d) for a, b, d in G.edges if d.get("style") != "invis"]
    return drawn, edges


def graph(ex, s, x, kernels, in_sym, inactive, weights, w):
    G = ex.visualize(list(in_sym), inactive, weights)
    nodes, edges = visible(G)
    act = set(s.active(x)[0])
    # every drawn node is named, by its label, as what it is
    lab = [in_sym[i] if in_sym else "<x<sub>%d</sub>>" % i for i in range(s.n)]
    into = {}
    for a, b, d in edges:
        into.setdefault(b, []).append((a, d))
        if not check(a in nodes and b in nodes, "graph", w + "an edge to or from nothing: %s %s" % (a, b)):
            return
    rank = {"lnormal": 0, "rnormal": 1}
    # from the outputs down: which graph node stands for which node
    by = {}  # graph node -> node
    todo = []
    for i in range(s.m):
        o = [n for n, d in nodes.items() if d.get("label") == "<o<sub>%d</sub>>" % i]
        if not check(len(o) == 1 and len(into.get(o[0], [])) == 1, "output", w + "output %d: %s" % (i, o)):
            return
        todo.append((into[o[0]][0][0], s.outputs(x)[i]))
    while todo:
        g, i = todo.pop()
        if g in by:
            if not check(by[g] == i, "graph", w + "node %s stands for %d and %d" % (g, by[g], i)):
                return
            continue
        if not check(i not in by.values(), "graph", w + "node %d is drawn twice" % i):
            return
        by[g] = i
        d = nodes[g]
        if i < s.n:
            check(d.get("label") == lab[i] and not into.get(g), "input", w + "input %d is drawn as %s" % (i, d))
            continue
        f = kernels[x[s.gene[i]]]
        check(d.get("label") == SIGN.get(f, f), "label", w + "node %d, a %s, is drawn as %s" % (i, f, d.get("label")))
        check(d.get("style") == "solid" and all(e.get("style") == "solid" for _, e in into.get(g, [])), "active", w + "active node %d is drawn %s" % (i, d))
        e = sorted(into.get(g, []), key=lambda t: rank.get(t[1].get("arrowhead"), 2))
        c = s.conns(x, i)
        if not check(len(e) == len(c), "edges", w + "node %d has %d edges" % (i, len(e))):
            return
        for j, (src, d) in enumerate(e):
            check(d.get("label", "") == ("<w<sub>%d,%d</sub>>" % (i, j) if weights else ""), "weight-label", w + "edge %d of node %d: '%s'" % (j, i, d.get("label")))
            todo.append((src, c[j]))
    check({i for i in by.values() if i >= s.n} == {i for i in act if i >= s.n}, "active", w + "%s" % sorted(by.values()))
    # what is left are inputs nothing is connected to, and inactive nodes
    rest = [n for n, d in nodes.items() if n not in by and not str(d.get("label", "")).startswith("<o<sub>")]
    inputs = sorted(nodes[n].get("label", "") for n in rest if not into.get(n) and nodes[n].get("label") in lab)
    check(inputs == sorted(lab[i] for i in range(s.n) if i not in by.values()), "input", w + "inputs drawn besides: %s" % inputs)
    funs = [n for n in rest if nodes[n].get("label") not in lab or into.get(n)]
    want = [i for i in range(s.n, s.nodes) if i not in act] if inactive else []
    if not check(len(funs) == len(want), "inactive", w + "%d inactive nodes drawn, %d there are" % (len(funs), len(want))):
        return
    name = {n: nodes[n].get("label") for n in rest if n not in funs}

    def gtree(n):
        if n in by:
            return "#%d" % by[n]
        if n in name:
            return "#%d" % lab.index(name[n])
        e = sorted(into.get(n, []), key=lambda t: rank.get(t[1].get("arrowhead"), 2))
        return "%s(%s)" % (nodes[n].get("label"), ",".join(gtree(a) for a, _ in e))

    def ctree(i):
        if i < s.n or i in act:
            return "#%d" % i
        f = kernels[x[s.gene[i]]]
        return "%s(%s)" % (SIGN.get(f, f), ",".join(ctree(j) for j in s.conns(x, i)))
    a, b = sorted(map(gtree, funs)), sorted(map(ctree, want))
    check(a == b, "inactive", lambda: w + "inactive nodes drawn %s, encoded %s" % (a, b))
    for n in funs:
        check(nodes[n].get("style") == "dashed" and all(d.get("style") == "dotted" for _, d in into[n]), "inactive", w + "inactive node drawn %s" % nodes[n])


def graphs(kind, shape, eph, kernels, cap, near):
    s = Shape(*shape, nf=len(kernels))
    ks = getattr(dcgpy, "kernel_set_" + kind.replace("weighted_", ""))(kernels)()
    cls = getattr(dcgpy, "expression_" + kind)
    ex = cls(s.n, s.m, s.r, s.c, s.l, s.arity, ks, 3) if "weighted" in kind else cls(s.n - eph, s.m, s.r, s.c, s.l, s.arity, ks, eph, 3)
    for num, x in enumerate(s.chromosomes(cap, near)):
        ex.set(x)
        R.states += 1
        for inactive in (True, False):
            for weights in (False, True):
                for sym in ([], ["x", "y", "z", "t"][:s.n]):
                    R.transitions += 1
                    graph(ex, s, x, kernels, sym, inactive, weights, "%s %s eph%d %s %s inactive=%d weights=%d %s: " % (kind, shape, eph, kernels, x, inactive, weights, sym))
        if num == 0:
            # defaults
            a, b = visible(ex.visualize()), visible(ex.visualize([], True, False))
            check(a == b, "defaults", "%s %s" % (kind, shape))
            for k in range(1, s.n + 3):
                if k != s.n:
                    check(pmc.raises(ValueError, ex.visualize, ["x%d" % i for i in range(k)]), "errors", "%s: %d symbols" % (shape, k))
        check(ex.get() == x, "unchanged", str(x))
        R.traces += 1


# ---- networks -------------------------------------------------------------------------------------------------------
def seg(a, b):
    return tuple(sorted((a, b)))


def near(p):
    return (round(p[0], 9), round(p[1], 9))


def ann(ex, s, x, kernels, opt, wts, w):
    own = opt.pop("own", False)
    ax0 = Axes()
    if own:
        opt = dict(opt, axes=ax0)
        last["ax"] = ax0
    ax = ex.visualize(**opt)
    check(ax is (ax0 if own else last["ax"]), "axes", w + "other axes returned")
    nl, leg = opt.get("show_nonlinearities", False), opt.get("legend", True)
    act = set(s.active(x)[0]) | set(range(s.nodes, s.nodes + s.m))
    total = s.nodes + s.m
    outlines = [c for c in ax.artists if not c.fill]
    extra = []
    if nl and leg:
        extra, outlines = outlines[-len(kernels):], outlines[:-len(kernels)]
        check([t[2] for t in ax.texts] == kernels, "legend", w + str([t[2] for t in ax.texts]))
    else:
        check(not ax.texts, "legend", w + str(ax.texts))
    cent = {near(c.xy) for c in outlines}
    if not check(len(outlines) == total and len(cent) == total, "circles", w + "%d circles at %d places for %d nodes" % (len(outlines), len(cent), total)):
        return
    fills = {near(c.xy) for c in ax.artists if c.fill}
    check(fills == cent, "circles", w + "filled and outlined circles differ")
    r = outlines[0].radius
    for a, b in itertools.combinations(sorted(cent), 2):
        if math.dist(a, b) < 2 * r - 1e-9:
            pmc.fail("overlap", w + "circles at %s and %s of radius %g" % (a, b, r))
            break
    cols = {}
    for c in outlines:
        cols.setdefault(round(c.xy[0], 9), []).append(c)
    xs = sorted(cols)
    sizes = [s.n] + [s.r] * s.c + [s.m]
    if not check([len(cols[q]) for q in xs] == sizes, "columns", w + "columns of %s" % [len(cols[q]) for q in xs]):
        return
    check(ax.xlim and ax.ylim and all(ax.xlim[0] <= p[0] <= ax.xlim[1] and ax.ylim[0] <= p[1] <= ax.ylim[1] for p in cent), "limits", w + "%s %s" % (ax.xlim, ax.ylim))
    # the direction in which inputs, nodes and outputs are numbered is the drawing's business
    show, ina = opt.get("show_connections", True), opt.get("show_inactive", False)
    got = sorted(seg(near(p[0]), near(p[1])) for p, _, _ in ax.lines)
    ok = None
    for up in itertools.product((False, True), repeat=3):
        pos = {}
        for k, q in enumerate(xs):
            cs = sorted(cols[q], key=lambda c: c.xy[1], reverse=not up[0 if k == 0 else 2 if k == len(xs) - 1 else 1])
            base = 0 if k == 0 else s.n + (k - 1) * s.r
            for j, c in enumerate(cs):
                pos[base + j] = c
        want, alphas = [], {}
        if show:
            for i in range(s.n, s.nodes):
                if i in act or ina:
                    for j, t in enumerate(s.conns(x, i)):
                        e = seg(near(pos[i].xy), near(pos[t].xy))
                        want.append(e)
                        alphas.setdefault(e, []).append((i in act, abs(wts[(i, j)])))
            for k, t in enumerate(s.outputs(x)):
                want.append(seg(near(pos[s.nodes + k].xy), near(pos[t].xy)))
        if sorted(want) != got:
            continue
        if any((c.alpha > 0.5) != (i in act) for i, c in pos.items()):
            continue
        if nl:
            col = {}
            if any(col.setdefault(x[s.gene[i]], pos[i].color) != pos[i].color for i in range(s.n, s.nodes)) or len(set(col.values())) != len(col):
                continue
            if leg and any(extra[k].color != v for k, v in col.items()):
                continue
        # heavier connections are drawn stronger, inactive ones weaker than active ones
        one = {e: v[0] for e, v in alphas.items() if len(v) == 1}
        drawn = [(one[seg(near(p[0]), near(p[1]))], a) for p, a, _ in ax.lines if seg(near(p[0]), near(p[1])) in one]
        aw = sorted((v[1], a) for v, a in drawn if v[0])
        hi = [a for v, a in drawn if not v[0]]
        ok = []
        if any(b[1] < a[1] - 1e-12 or (b[1] <= a[1] and b[0] - a[0] > 1e-9) for a, b in zip(aw, aw[1:])):
            ok = ["connections by weight: %s" % aw]
        elif aw and hi and max(hi) > min(a for _, a in aw):
            ok = ["inactive connections are drawn stronger than active ones"]
        if not ok:
            break
    if not check(ok is not None, "network", lambda: w + "the drawing (%d lines) is not that of the network" % len(got)):
        return
    check(not ok, "strength", lambda: w + ok[0])


OPTS = [{}, {"show_inactive": True}, {"show_connections": False}, {"show_nonlinearities": True}, {"show_nonlinearities": True, "legend": False, "show_inactive": True}, {"own": True}, {"own": True, "show_nonlinearities": True}, {"active_connection_alpha": 0.6, "inactive_connection_alpha": 0.05, "fill_color": "g", "show_inactive": True}]


def networks(shape, kernels, cap, near_):
    s = Shape(*shape, nf=len(kernels))
    ex = dcgpy.expression_ann(s.n, s.m, s.r, s.c, s.l, s.arity, dcgpy.kernel_set_double(kernels)(), 3)
    for num, x in enumerate(s.chromosomes(cap, near_)):
        ex.set(x)
        R.states += 1
        for wk in range(3):
            n = len(ex.get_weights())
            wl = [0.] * n if wk == 0 else [1.] * n if wk == 1 else [((i * 7 + num) % 11 - 5) / 3. for i in range(n)]
            ex.set_weights(wl)
            wts = {}
            for i in range(s.n, s.nodes):
                for j in range(s.ar(i)):
                    wts[(i, j)] = wl[len(wts)]
            for o in OPTS:
                R.transitions += 1
                w = "%s %s %s %s weights%d: " % (shape, kernels, x, o, wk)
                try:
                    ann(ex, s, x, kernels, dict(o), wts, w)
                except Exception as e:
                    pmc.fail("exception", w + "%s: %s" % (type(e).__name__, e))
            check(ex.get() == x and ex.get_weights() == wl, "unchanged", str(x))
        R.traces += 1


def body():
    t = R.thorough
    S = [(1, 1, 1, 1, 1, 1), (1, 1, 1, 2, 2, 2), (2, 1, 1, 2, 1, 2), (2, 2, 2, 2, 2, 2), (3, 2, 1, 2, 3, [1, 3]), (2, 1, 2, 2, 1, [2, 3]), (1, 3, 3, 1, 1, 2), (2, 1, 1, 3, 2, [3, 1, 2])]
    SETS = [["sum", "diff", "mul", "div"], ["sin", "pdiv", "exp"], ["tanh", "sum"]]
    for sh in S:
        for k in SETS:
            for kind in ("double", "gdual_double", "gdual_vdouble", "weighted_double", "weighted_gdual_vdouble"):
                if "gdual" in kind and "pdiv" in k:
                    continue
                for eph in (0, 1):
                    if eph >= sh[0] or (eph and "weighted" in kind):
                        continue
                    cap, nr = (2000, 2) if t else (150, 1) if kind == "double" else (30, 0)
                    pmc.case("%s %s %d %s" % (kind, sh, eph, k), graphs, kind, sh, eph, k, cap, nr)
    A = [(1, 1, 1, 1, 1, 1), (1, 1, 1, 2, 1, 1), (1, 1, 1, 2, 2, 2), (2, 1, 1, 2, 2, 2), (1, 1, 2, 2, 2, 2), (2, 2, 2, 2, 1, 2), (3, 2, 2, 2, 2, [3, 2]), (2, 3, 2, 1, 1, 2), (1, 4, 2, 2, 3, [1, 2]), (4, 1, 1, 3, 2, [4, 1, 2])]
    for sh in A:
        for k in (["tanh", "sig", "ReLu"], ["sum"], ["tanh", "ReLu", "sum", "ELU", "ISRU", "sig"]):
            pmc.case("ann %s %s" % (sh, k), networks, sh, k, 2000 if t else 150, 2 if t else 1)


pmc.main(body)
