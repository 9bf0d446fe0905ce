"""Reference model of CGP expressions in Python, written from the documented encoding only."""
import itertools
import math


def _div(a, b):
    if b == 0:
        return math.nan if a == 0 or a != a else math.copysign(math.inf, a) * math.copysign(1, b)
    return a / b


def _exp(x):
    try:
        return math.exp(x)
    except OverflowError:
        return math.inf


def _log(x):
    return math.nan if x != x or x < 0 else (-math.inf if x == 0 else math.log(x))


def _fold(f):
    def g(v):
        s = v[0]
        for x in v[1:]:
            s = f(s, x)
        return s
    return g


def _pdiv(v):
    d = 1.
    for x in v[1:]:
        d *= x
    s = _div(v[0], d)
    return s if math.isfinite(s) else 1.


def _trig(f):
    return lambda x: f(x) if math.isfinite(x) else math.nan


def _sq(x):
    try:
        return x * x
    except OverflowError:
        return math.inf


_sum = _fold(lambda a, b: a + b)
_sig = lambda x: 1. / (1. + _exp(-x))
_sqrt = lambda x: math.nan if x != x or x < 0 else math.sqrt(x)
_relu = lambda s: 0. if s < 0 else s
_elu = lambda s: _exp(s) - 1. if s < 0 else s
_isru = lambda s: s / math.sqrt(1. + s * s) if math.isfinite(s * s) else math.nan
_step = lambda s: 0. if s < 0 else 1.
K = {
    "sum": _sum,
    "diff": _fold(lambda a, b: a - b),
    "mul": _fold(lambda a, b: a * b),
    "div": _fold(_div),
    "pdiv": _pdiv,
    "sig": lambda v: _sig(_sum(v)),
    "tanh": lambda v: math.tanh(_sum(v)),
    "ReLu": lambda v: _relu(_sum(v)),
    "ELU": lambda v: _elu(_sum(v)),
    "ISRU": lambda v: _isru(_sum(v)),
    "sin_nu": lambda v: _trig(math.sin)(_sum(v)),
    "cos_nu": lambda v: _trig(math.cos)(_sum(v)),
    "gaussian_nu": lambda v: _exp(-_sq(_sum(v))),
    "inv_sum": lambda v: -_sum(v),
    "abs": lambda v: abs(_sum(v)),
    "step": lambda v: _step(_sum(v)),
    "sin": lambda v: _trig(math.sin)(v[0]),
    "cos": lambda v: _trig(math.cos)(v[0]),
    "log": lambda v: _log(v[0]),
    "exp": lambda v: _exp(v[0]),
    "gaussian": lambda v: _exp(-_sq(v[0])),
    "sqrt": lambda v: _sqrt(v[0]),
    "psqrt": lambda v: math.sqrt(abs(v[0])) if v[0] == v[0] else math.nan,
}
# how printed formulas are read
FUN = {"sin": _trig(math.sin), "cos": _trig(math.cos), "tanh": math.tanh, "exp": math.exp, "log": math.log, "sqrt": math.sqrt,
       "abs": abs, "sig": _sig, "ReLu": _relu, "ELU": _elu, "ISRU": _isru, "step": _step}


class Shape:
    """n includes the ephemeral constants; arity one per column"""

    def __init__(self, n, m, r, c, l, arity, nf):
        self.n, self.m, self.r, self.c, self.l, self.nf = n, m, r, c, l, nf
        self.arity = [arity] * c if isinstance(arity, int) else list(arity)
        self.gene, g = {}, 0
        for i in range(r * c):
            self.gene[n + i] = g
            g += 1 + self.arity[i // r]
        self.size = g + m
        self.nodes = n + r * c

    def ar(self, node):
        return self.arity[(node - self.n) // self.r]

    def bounds(self):
        """list of the legal values of each gene"""
        B = []
        for i in range(self.r * self.c):
            col = i // self.r
            B.append(list(range(self.nf)))
            B += [self.before(col)] * self.arity[col]
        return B + [self.before(self.c)] * self.m

    def before(self, col):
        """nodes of the preceding l columns, the inputs being the column before the first"""
        lo = 0 if col < self.l else self.n + (col - self.l) * self.r
        hi = self.n + col * self.r
        return list(range(lo, hi)) if col >= self.l else list(range(0, hi))

    def bases(self):
        B = self.bounds()
        return [[b[0] for b in B], [b[-1] for b in B], [b[(3 * i + 1) % len(b)] for i, b in enumerate(B)], [b[(5 * i + 2) % len(b)] for i, b in enumerate(B)]]

    def chromosomes(self, cap, near=2):
        """every chromosome if there are at most cap, else all within `near` genes of the bases"""
        B = self.bounds()
        t = 1
        for b in B:
            t *= len(b)
        if t <= cap:
            yield from (list(x) for x in itertools.product(*B))
            return
        seen = set()
        for base in self.bases():
            for k in range(near + 1):
                for pos in itertools.combinations(range(len(B)), k):
                    for val in itertools.product(*[[v for v in B[p] if v != base[p]] for p in pos]):
                        x = list(base)
                        for p, v in zip(pos, val):
                            x[p] = v
                        if tuple(x) not in seen:
                            seen.add(tuple(x))
                            yield x

    def conns(self, x, node):
        g = self.gene[node]
        return x[g + 1:g + 1 + self.ar(node)]

    def outputs(self, x):
        return x[-self.m:]

    def active(self, x):
        """(active nodes, active genes), sorted"""
        nodes, todo = set(), list(self.outputs(x))
        while todo:
            i = todo.pop()
            if i not in nodes:
                nodes.add(i)
                if i >= self.n:
                    todo += self.conns(x, i)
        genes = []
        for i in sorted(nodes):
            if i >= self.n:
                genes += range(self.gene[i], self.gene[i] + 1 + self.ar(i))
        return sorted(nodes), sorted(genes) + list(range(self.size - self.m, self.size))

    def eval(self, x, inputs, kernels, weight=None, bias=None, leaf=None):
        """kernels: functions of a list; weight(node, j), bias(node): scalars"""
        val = {}

        def get(i):
            if i not in val:
                if i < self.n:
                    val[i] = inputs[i]
                else:
                    a = [get(j) for j in self.conns(x, i)]
                    if weight:
                        a = [weight(i, k) * v for k, v in enumerate(a)]
                    if bias:
                        a = list(a)
                        a[0] = a[0] + bias(i)
                    val[i] = kernels[x[self.gene[i]]](a)
            return val[i]
        return [get(i) for i in self.outputs(x)]
