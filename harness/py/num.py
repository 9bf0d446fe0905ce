"""numbers of the types the expressions are exposed for"""
import copy
import pickle

import dcgpy
from pmc import close
from pyaudi import gdual_double, gdual_vdouble

NUMBERS_ONLY = {"pdiv", "step", "abs", "ReLu", "ELU", "ISRU", "psqrt"}


def base(kind):
    return "double" if kind == "ann" else kind.replace("weighted_", "")


class T:
    """numbers of a type"""

    def __init__(self, kind):
        self.t = base(kind)

    def up(self, v):
        return v if self.t == "double" else gdual_double(v) if self.t == "gdual_double" else gdual_vdouble([v, v])

    def down(self, v):
        """as floats; None if there is more to it"""
        if self.t == "double":
            return v if isinstance(v, float) else None
        c = v.constant_cf
        if self.t == "gdual_double":
            return c
        return c[0] if all(close(x, c[0]) for x in c) else None


def cls(kind):
    return getattr(dcgpy, "expression_" + kind)


def kset(kind, names):
    return getattr(dcgpy, "kernel_set_" + base(kind))(names)


COPIES = [("deepcopy", copy.deepcopy), ("pickle", lambda e: pickle.loads(pickle.dumps(e))), ("pickle2", lambda e: pickle.loads(pickle.dumps(e, 2))), ("copy", copy.copy)]


class Oops(Exception):
    """(here, so that it is pickled by its name)"""
