"""Values do not depend on how the numbers are stored"""
import numpy as np
import astropy.units as u
from hypothesis import strategies as st

from vlib import gen
from vlib.cmp import close, ensure
from vlib.runner import Sub
from checks.C38 import NAMES, Pool, Q, flat, strat as strat38

LAYOUTS = ("int", "big-endian", "strided", "reversed view", "read-only", "single precision", "column of a table", "scalar")
# functions that need an array, or that take single elements of it themselves
NOT_SCALAR = {"flux integral", "energy flux integral", "n_e part", "loglog", "loglog zeros", "loglog array", "plot", "ssc", "ssc ssa", "tau on synchrotron", "disk sed", "disk sed z", "synch peak", "synch peak nu", "constraints", "n_e int"} | {n for n in NAMES if n.startswith("u ")}


def tol_of(name):
    # self-absorption at the smallest opacities loses digits by cancellation
    return 1e-6 if "ssa" in name else 1e-9


def arrange(v, how):
    """the same numbers in the same order, stored in another way"""
    unit = getattr(v, "unit", None)
    x = np.array(v.value if unit is not None else v)
    if how == "int":
        y = x.astype(np.int64)
    elif how == "big-endian":
        y = x.astype(x.dtype.newbyteorder(">"))
    elif how == "strided":
        y = np.full(3 * x.size, 7, dtype=x.dtype)[::3]
        y[...] = x
    elif how == "reversed view":
        y = x[::-1].copy()[::-1]
    elif how == "read-only":
        y = x.copy()
        y.flags.writeable = False
    elif how == "single precision":
        y = x.astype(np.float32)
    elif how == "column of a table":
        y = np.zeros(x.size, dtype=[("a", "i4"), ("x", x.dtype), ("b", "f4")])["x"]
        y[...] = x
    else:
        y = x.ravel()[0]
    if how in ("int", "scalar") and unit is not None:
        return y * unit  # what astropy makes of them
    if how == "single precision" and unit is not None:
        return x * unit  # (powers of lengths and frequencies leave its range)
    # the memory is kept as it is
    return y if unit is None else u.Quantity(y, unit, copy=False, dtype=y.dtype)


def strat():
    return st.tuples(strat38(), st.fixed_dictionaries(dict(how=gen.pick(*LAYOUTS), q=st.lists(st.sampled_from(NAMES), min_size=4, max_size=9, unique=True)))).map(lambda t: dict({k: v for k, v in t[0].items() if k not in ("seq", "spoil")}, **t[1]))


def fn(c, ctx):
    """any query given the same numbers as integers, big-endian or single precision, strided or reversed views, read-only, columns of a structured table, or one scalar: the values are those for a plain contiguous array of doubles; the input is left alone; non-trivial: always"""
    base, other = Pool(c), Pool(c)
    how = c["how"]
    ctx.label(how)
    ctx.nontrivial()
    for k in ("nu", "nug", "gam", "igam", "r", "R"):
        v = getattr(base, k)
        if k in ("nu", "nug"):
            v = v.to("GHz")
        x = np.array(v.value if hasattr(v, "unit") else v)
        if how == "int":
            x = np.maximum(np.round(x), 1) if k in ("nu", "nug", "R") else np.ceil(x) if k == "gam" else np.round(x)
            if k == "r":
                x = np.minimum(x, 9e18)
        if how == "single precision":
            x = x.astype(np.float32)
        x = x.astype(float) if k != "igam" else x
        if k == "R":
            x = np.maximum(x, c["t"]["Rin"] * 1.01)
            if how == "int":
                x = np.ceil(x)
            if how == "single precision":
                x = x.astype(np.float32).astype(float)
        if how == "scalar":
            x = x[1:2] if k == "gam" else x[:1]
        v = x * v.unit if hasattr(v, "unit") else x
        setattr(base, k, v)
        setattr(other, k, arrange(v, how))
    # near the bounds and at their rounding the arrays may be corrected in place
    for p in (base, other):
        if how in ("read-only", "int", "single precision"):
            p.gam = p.gam[1:-1] if p.gam.ndim and p.gam.size > 2 else p.gam
    for name in c["q"]:
        if how == "scalar" and name in NOT_SCALAR:
            continue
        want = flat(Q[name](base))
        keep = {k: np.array(getattr(getattr(other, k), "value", getattr(other, k))) for k in ("nu", "nug", "gam", "igam", "r", "R")}
        got = flat(Q[name](other))
        ensure(len(got) == len(want), "%s: %d results instead of %d" % (name, len(got), len(want)))
        for a, b in zip(got, want):
            tol = tol_of(name) if how != "single precision" else 1e-5
            close(a.ravel(), b.ravel(), tol, "%s, %s" % (name, how), floor=1e-12 if how != "single precision" else 1e-6, atol=1e-250)
        for k, v in keep.items():
            now = getattr(other, k)
            ensure(np.allclose(getattr(now, "value", now), v, rtol=1e-9, atol=0), "%s changed its argument" % name)



# of several arrays, of a whole array at once, or not of the arrays at all
NOT_ELEMENTWISE = {"flux integral", "energy flux integral", "n_e part", "loglog", "loglog zeros", "loglog array", "plot", "tau on synchrotron", "synch peak", "synch peak nu", "constraints", "text", "u disk", "u comoving disk"}
PLACES = {"n_e int": "igam", "disk T": "R", "disk epsilon": "R", "disk phi": "R", "R_g": "r"}
PLACES.update({n: "r" for n in NAMES if n.startswith("u ") and n not in ("u cmb", "u cmb comoving")})
PLACES.update({n: "gam" for n in NAMES if n.startswith("loss ") or n in ("fermi", "ssc loss", "ssc loss thomson", "synch loss", "n_e", "n_e ssa", "n_e static", "n_p", "N_e", "N_p")})
PLACES.update({n: "nug" for n in NAMES if n.startswith(("ec ", "tau ", "absorption ", "homogeneous ", "ebl"))})
PLACES.update({n: "nu" for n in ("synch", "synch ssa", "synch luminosity", "synch delta", "diff flux", "proton synch", "epsilon", "disk sed", "disk sed z", "torus sed")})
ELEMENTWISE = sorted(n for n in PLACES if n not in NOT_ELEMENTWISE)


def strat_order():
    return st.tuples(strat38(), st.fixed_dictionaries(dict(q=st.lists(st.sampled_from(ELEMENTWISE), min_size=4, max_size=12, unique=True), order=st.lists(st.integers(0, 7), min_size=2, max_size=9)))).map(lambda t: dict({k: v for k, v in t[0].items() if k not in ("seq", "spoil")}, **t[1]))


def fn_order(c, ctx):
    """any query taking an array element by element, given its elements in any order, some left out and some repeated: the values are those for the same elements of the full ascending array; non-trivial: another order or repetitions"""
    base, other = Pool(c), Pool(c)
    order = c["order"]
    if any(b < a for a, b in zip(order, order[1:])) or len(set(order)) < len(order):
        ctx.nontrivial()
    for name in c["q"]:
        k = PLACES[name]
        v = getattr(base, k)
        v = np.sort(v)
        setattr(base, k, v)
        idx = np.array(order) % v.size
        setattr(other, k, v[idx])
        ctx.label(k)
        want, got = flat(Q[name](base)), flat(Q[name](other))
        ensure(len(got) == len(want) == 1 and got[0].shape == idx.shape and want[0].shape == v.shape, "%s: %s for %d elements, %s for %d" % (name, [x.shape for x in got], idx.size, [x.shape for x in want], v.size))
        close(got[0], want[0][idx], tol_of(name), "%s of elements %s" % (name, idx.tolist()), floor=1e-12, atol=1e-250)



KINDS = {"int": int, "int64": np.int64, "float64": np.float64}
B_KEYS = ("z", "R_b", "B", "delta_D", "Gamma", "xi")
# (radii of a disk in gravitational radii: Python numbers only)
T_KEYS = ("R", "T", "M", "r", "zc")


def strat_pars():
    return st.tuples(strat38(), st.fixed_dictionaries(dict(q=st.lists(st.sampled_from(NAMES), min_size=4, max_size=9, unique=True), kind=gen.pick(*KINDS), delta=st.integers(2, 30)))).map(lambda t: dict({k: v for k, v in t[0].items() if k not in ("seq", "spoil")}, **t[1]))


def fn_pars(c, ctx):
    """regions, particles and targets whose parameters are whole numbers given as Python or numpy integers of 32 or 64 bits, or numpy floats: the answers are those for the same numbers as Python floats; non-trivial: always"""
    k = c["kind"]
    conv = KINDS[k]

    def whole(d, keys, f):
        out = dict(d)
        for x in keys:
            if isinstance(d.get(x), (int, float)) and not isinstance(d.get(x), bool):
                v = float(max(round(d[x]), 1))
                if not (k == "int64" and v > 9e17):
                    v = f(v)
                out[x] = v
        return out

    def case(f):
        b = dict(c["b"], delta_D=c["delta"], Gamma=c["delta"], cosmo=None)
        b = whole(b, B_KEYS, f)
        for s in ("n_e", "n_p"):
            n = dict(b[s])
            lo = float(max(round(n["gamma_min"]), 1))
            n.update(gamma_min=lo, gamma_max=max(float(round(n["gamma_max"])), 3 * lo))
            b[s] = whole(n, ("gamma_min", "gamma_max", "p", "p1", "p2", "gamma_b", "gamma_0", "gamma_c", "k"), f)
        return dict(c, b=b, t=whole(whole(c["t"], ("Rin", "Rratio"), f if k in ("int", "float64") else float), T_KEYS, f))

    # nodes of the grids may sit on a break within rounding
    base, other = Pool(case(float)), Pool(case(conv))
    ctx.label(k)
    ctx.nontrivial()
    for name in c["q"]:
        want, got = flat(Q[name](base)), flat(Q[name](other))
        ensure(len(got) == len(want), "%s: %d results instead of %d" % (name, len(got), len(want)))
        for a, b in zip(got, want):
            close(a.ravel(), b.ravel(), tol_of(name), "%s, parameters as %s" % (name, k), floor=1e-12, atol=1e-250)


CHEAP = sorted(n for n in ELEMENTWISE if PLACES[n] in ("gam", "igam", "R") or n in ("synch", "synch ssa", "synch luminosity", "synch delta", "diff flux", "proton synch", "epsilon", "disk sed", "disk sed z", "torus sed", "ebl", "ebl other z", "R_g"))


def strat_long():
    return st.tuples(strat38(), st.fixed_dictionaries(dict(q=st.lists(st.sampled_from(CHEAP), min_size=2, max_size=4, unique=True), slow=st.sampled_from(sorted(set(ELEMENTWISE) - set(CHEAP))), n=gen.logu(20, 9000).map(int), m=st.integers(20, 130), step=st.integers(1, 7)))).map(lambda t: dict({k: v for k, v in t[0].items() if k not in ("seq", "spoil")}, **t[1]))


def fn_long(c, ctx):
    """long arrays (up to 9000 elements for the fast queries, 130 for the slow ones) made of a few values over and over: each element has the value it has in the short array; non-trivial: always"""
    base, other = Pool(c), Pool(c)
    ctx.nontrivial()
    for name, n in [(q, c["n"]) for q in c["q"]] + [(c["slow"], c["m"])]:
        k = PLACES[name]
        v = getattr(base, k)
        idx = (c["step"] * np.arange(n)) % v.size
        setattr(other, k, v[idx])
        want, got = flat(Q[name](base)), flat(Q[name](other))
        ensure(len(got) == len(want) == 1 and got[0].shape == idx.shape, "%s: %s for %d elements" % (name, [x.shape for x in got], n))
        close(got[0], want[0][idx], tol_of(name), "%s of %d elements" % (name, n), floor=1e-12, atol=1e-250)


SUBS = [
    Sub("layouts", fn, strat, quick=400, thorough=10000, shards=8),
    Sub("order", fn_order, strat_order, quick=400, thorough=10000, shards=8),
    Sub("parameters", fn_pars, strat_pars, quick=320, thorough=10000, shards=8),
    Sub("long", fn_long, strat_long, quick=80, thorough=2500, shards=8),
]
