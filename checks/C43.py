"""Copies, pickles and threads"""
import copy
import pickle
import sys
from concurrent.futures import ThreadPoolExecutor

import numpy as np
import astropy.units as u
from hypothesis import strategies as st

from vlib import gen
from vlib.cmp import close, ensure
from vlib.runner import Sub
from checks.C38 import NAMES, Pool, Q, differs, flat, state, strat as strat38

KEEP = dict(floor=1e-12, atol=1e-250)


def objects(p):
    o = dict(blob=p.blob, con=p.con, syn=p.syn, syns=p.syns, ssc=p.ssc, sscs=p.sscs, psyn=p.psyn)
    for part in ("targets", "ec", "ab", "abs_mu"):
        o.update({"%s %s" % (part, k): v for k, v in getattr(p, part).items()})
    return o


def other(p, c):
    """change every parameter that shows in the answers"""
    b = p.blob
    b.B, b.R_b, b.delta_D, b.z = 3.3 * b.B, 1.7 * b.R_b, 1.3 * b.delta_D, 0.9 * b.z
    n = b.n_e
    if hasattr(n, "k"):
        n.k = 5 * n.k
    else:
        n.norm = 5 * n.norm
    b.n_p.k = 5 * b.n_p.k
    t = p.targets
    for k in ("ps", "dt", "blr", "disk"):
        for a in ("L_0", "L_disk"):
            if hasattr(t[k], a):
                setattr(t[k], a, 2.2 * getattr(t[k], a))
    for x in list(p.ec.values()) + list(p.ab.values()):
        x.r = 1.1 * x.r


def strat():
    return st.tuples(strat38(), st.fixed_dictionaries(dict(how=gen.pick("deepcopy", "pickle", "pickle 2"), q=st.lists(st.sampled_from(NAMES), min_size=2, max_size=6, unique=True), warm=st.booleans(), change=gen.pick("copy", "original")))).map(
        lambda t: dict({k: v for k, v in t[0].items() if k not in ("seq", "spoil")}, **t[1]))


HOW = {"deepcopy": copy.deepcopy, "pickle": lambda p: pickle.loads(pickle.dumps(p)), "pickle 2": lambda p: pickle.loads(pickle.dumps(p, protocol=2))}


def fn(c, ctx):
    """a deep or pickled copy of regions, processes, targets and absorptions (before or after being asked) answers as the original, and neither notices what is done to the other afterwards; non-trivial: always"""
    a = Pool(c)
    if c["warm"]:
        for name in c["q"]:
            Q[name](a)
    b = HOW[c["how"]](a)
    ctx.label(c["how"])
    ctx.nontrivial()
    d = differs({k: state(o) for k, o in objects(a).items()}, {k: state(o) for k, o in objects(b).items()})
    ensure(d is None, "%s: the copy has another %s" % (c["how"], d))
    fresh = Pool(c)
    changed, kept = (b, a) if c["change"] == "copy" else (a, b)
    for name in c["q"]:
        want = flat(Q[name](fresh))
        for p, who in ((a, "original"), (b, "copy")):
            for x, y in zip(flat(Q[name](p)), want):
                close(x, y, 1e-9, "%s of the %s (%s)" % (name, who, c["how"]), **KEEP)
    before = {k: state(o) for k, o in objects(kept).items()}
    other(changed, c)
    d = differs(before, {k: state(o) for k, o in objects(kept).items()})
    ensure(d is None, "%s: changing the %s changed the other: %s" % (c["how"], c["change"], d))
    for name in c["q"]:
        for x, y in zip(flat(Q[name](kept)), flat(Q[name](fresh))):
            close(x, y, 1e-9, "%s after changing the %s (%s)" % (name, c["change"], c["how"]), **KEEP)


def strat_threads():
    return st.tuples(strat38(), st.fixed_dictionaries(dict(jobs=st.lists(st.lists(st.sampled_from([n for n in NAMES if n != "plot"]), min_size=3, max_size=8), min_size=2, max_size=6), switch=gen.pick(1e-6, 1e-5, 1e-4)))).map(
        lambda t: dict({k: v for k, v in t[0].items() if k not in ("seq", "spoil")}, **t[1]))


def fn_threads(c, ctx):
    """two to six threads asking the same objects with the same argument arrays at the same time, switching often: every answer is that of fresh objects asked alone; non-trivial: always"""
    p, fresh = Pool(c), Pool(c)
    want = {n: flat(Q[n](fresh)) for n in sorted({n for j in c["jobs"] for n in j})}
    ctx.nontrivial()
    ctx.label("%d threads" % len(c["jobs"]))
    old = sys.getswitchinterval()
    sys.setswitchinterval(c["switch"])
    try:
        with ThreadPoolExecutor(len(c["jobs"])) as ex:
            got = list(ex.map(lambda j: [(n, flat(Q[n](p))) for n in j], c["jobs"]))
    finally:
        sys.setswitchinterval(old)
    for j in got:
        for n, res in j:
            ensure(len(res) == len(want[n]), "%s: %d results instead of %d" % (n, len(res), len(want[n])))
            for x, y in zip(res, want[n]):
                close(x, y, 1e-9, "%s asked by several threads" % n, **KEEP)


def strat_apart():
    return st.tuples(strat38(), st.fixed_dictionaries(dict(q=st.lists(st.sampled_from([n for n in NAMES if n != "plot"]), min_size=1, max_size=5), threads=gen.pick(2, 3, 4), switch=gen.pick(1e-6, 1e-5, 1e-4)))).map(
        lambda t: dict({k: v for k, v in t[0].items() if k not in ("seq", "spoil")}, **t[1]))


def fn_apart(c, ctx):
    """two to four threads, each with objects of its own that differ in every parameter but not in the sizes of their grids, asked the same at the same time: every answer is that of fresh objects asked alone; non-trivial: always"""
    def pools():
        ps = [Pool(c) for _ in range(c["threads"])]
        for i, p in enumerate(ps):
            for _ in range(i):
                other(p, c)
        return ps

    want = [[flat(Q[n](p)) for n in c["q"]] for p in pools()]
    ctx.nontrivial()
    ctx.label("%d threads" % c["threads"])
    ps = pools()
    old = sys.getswitchinterval()
    sys.setswitchinterval(c["switch"])
    try:
        with ThreadPoolExecutor(c["threads"]) as ex:
            got = list(ex.map(lambda p: [[flat(Q[n](p)) for n in c["q"]] for _ in range(2)], ps))
    finally:
        sys.setswitchinterval(old)
    for rounds, w in zip(got, want):
        for round in rounds:
            for n, res, ww in zip(c["q"], round, w):
                ensure(len(res) == len(ww), "%s: %d results instead of %d" % (n, len(res), len(ww)))
                for x, y in zip(res, ww):
                    close(x, y, 1e-9, "%s asked in a thread next to others" % n, **KEEP)


SUBS = [Sub("copies", fn, strat, quick=240, thorough=6000, shards=8), Sub("threads", fn_threads, strat_threads, quick=160, thorough=6000, shards=8), Sub("threads_apart", fn_apart, strat_apart, quick=120, thorough=6000, shards=8)]
