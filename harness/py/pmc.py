"""Enumeration, replay and reporting for explorers written in Python (the counterpart of lib/mc.hpp)."""
import argparse
import itertools
import json
import math
import os
import signal
import sys
import traceback


class Report:
    def __init__(self):
        self.states = self.transitions = self.traces = self.cases = self.checks = 0
        self.exhaustive = True
        self.counters, self.violations, self.samples, self.notes = {}, [], [], []
        self.outcomes = set()
        self.index = -1
        self.cur = ""
        self.per_key = {}


R = Report()


def main(body):
    a = argparse.ArgumentParser()
    a.add_argument("--out")
    a.add_argument("--limit", type=float, default=60)
    a.add_argument("--thorough", action="store_true")
    a.add_argument("--case")
    a.add_argument("--shard", type=int, default=0)
    a.add_argument("--shards", type=int, default=1)
    R.opt, R.rest = a.parse_known_args()
    R.thorough = R.opt.thorough
    body()
    signal.setitimer(signal.ITIMER_REAL, 0)
    with open(R.opt.out, "w") as f:
        json.dump({"complete": True, "states": R.states, "transitions": R.transitions, "traces": R.traces, "cases": R.cases,
                   "checks": R.checks, "outcomes": len(R.outcomes), "exhaustive": R.exhaustive, "counters": R.counters,
                   "violations": R.violations, "samples": R.samples, "notes": R.notes}, f)
    sys.stdout.flush()
    os._exit(1 if R.violations else 0)  # no interpreter shutdown: not under test


def begin(name):
    """True if the case is to be explored by this process; a hang or crash inside is attributed to it"""
    if R.opt.case:
        if name != R.opt.case:
            return False
    else:
        R.index += 1
        if R.index % R.opt.shards != R.opt.shard:
            return False
    R.cases += 1
    R.cur = name
    with open(R.opt.out + ".cur", "w") as f:
        f.write(name)
    alive()
    return True


def alive():
    signal.setitimer(signal.ITIMER_REAL, R.opt.limit)


def case(name, fn, *args):
    if not begin(name):
        return
    try:
        fn(*args)
    except Exception as e:  # an exception nobody asked for is a finding of the case
        fail("exception", "%s: %s\n%s" % (type(e).__name__, e, "".join(traceback.format_tb(e.__traceback__)[-4:])))


def fail(key, msg):
    n = R.per_key[key] = R.per_key.get(key, 0) + 1
    if n <= 3:
        R.violations.append({"key": key, "case": R.cur, "msg": str(msg)[:1500]})


def check(ok, key, msg=""):
    R.checks += 1
    if not ok:
        fail(key, msg() if callable(msg) else msg)
    return ok


def count(k, n=1):
    R.counters[k] = R.counters.get(k, 0) + n


def raises(types, f, *a, **k):
    try:
        f(*a, **k)
    except types:
        return True
    except Exception as e:
        return False
    return False


def close(a, b, rtol=1e-9, atol=1e-10):
    if not math.isfinite(a) or not math.isfinite(b):
        return not math.isfinite(a) and not math.isfinite(b)
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


product = itertools.product
