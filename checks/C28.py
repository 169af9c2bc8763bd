"""Numerical helpers: integration in log-log space, reshaping, clipped logarithm, analytic power-law integral"""
import numpy as np
import astropy.units as u
from hypothesis import strategies as st

from agnpy.utils import math as M
from vlib import gen, ref
from vlib.cmp import close, ensure, val
from vlib.runner import Sub


def strat():
    return st.fixed_dictionaries(dict(
        x0=gen.logu(1e-10, 1e10), steps=st.lists(st.one_of(gen.logu(1e-3, 2), st.just(0.0)), min_size=1, max_size=12), m=gen.lin(-5, 5), m1=gen.pick(-1.0, -1.0 + 1e-12, None, None, None), k=gen.logu(1e-30, 1e30),
        y=st.lists(st.one_of(gen.logu(1e-20, 1e20), st.just(0.0)), min_size=13 * 3, max_size=13 * 3), axis=st.integers(0, 2), nd=st.integers(1, 3), qx=st.booleans(), qy=st.booleans(), xfull=st.booleans()))


def fn(c, ctx):
    """power laws integrated exactly whatever the grid (index -1 included); piecewise: every pair of points contributes the integral of the power law through them, zero where a value is zero or the points coincide; any axis, number of dimensions and units; additive over adjoining ranges; arguments untouched; non-trivial: more than one interval"""
    lx = np.concatenate([[0], np.cumsum(c["steps"])])
    x = c["x0"] * 10**lx
    n = x.size
    ctx.nontrivial(n > 2)
    m = c["m1"] if c["m1"] is not None else c["m"]
    y = c["k"] * (x / c["x0"]) ** m
    b, a = x[-1], x[0]
    if b > a:
        s = np.log(b / a) * (m + 1)
        exact = c["k"] * a * np.log(b / a) * (np.expm1(s) / s if abs(s) > 1e-9 else 1 + s / 2)
        # points distinct only by rounding
        close(float(M.trapz_loglog(y, x)), exact, 1e-6, "integral of a power law of index %g" % m)
    # arbitrary piecewise power law on any axis
    nd, ax = c["nd"], min(c["axis"], c["nd"] - 1)
    shape = [2, 3, 2][:nd]
    shape[ax] = n
    Y = np.resize(np.array(c["y"]), shape)
    X = x
    if c["xfull"]:
        X = np.moveaxis(np.broadcast_to(x, [s for i, s in enumerate(shape) if i != ax] + [n]), -1, ax).copy()
    X0, Y0 = X.copy(), Y.copy()
    want = ref.trapz_loglog(Y, X if c["xfull"] else x, axis=ax)
    xq, yq = (X * u.km if c["qx"] else X), (Y * u.s if c["qy"] else Y)
    got = M.trapz_loglog(yq, xq, axis=ax)
    unit = (u.km if c["qx"] else u.one) * (u.s if c["qy"] else u.one)
    got = val(got, unit if c["qx"] or c["qy"] else "")
    # slopes close to -1: the difference of nearly equal powers loses digits
    mag = ref.trapz(np.abs(Y), X if c["xfull"] else x, axis=ax)
    close(got, want, 1e-6, "log-log integral", atol=1e-9 * np.max(mag, initial=0) + 1e-300)
    ensure(np.array_equal(X, X0) and np.array_equal(Y, Y0), "the arguments were changed")
    ensure(np.all(got >= -1e-9 * np.max(mag, initial=0)), "negative integral of a positive function")
    if ax != 0 or nd == 1:
        pass
    else:
        close(val(M.trapz_loglog(yq, xq), unit if c["qx"] or c["qy"] else ""), got, 0, "default axis")
    k = n // 2
    if 0 < k < n - 1 and nd == 1:
        p = np.asarray(M.trapz_loglog(Y[: k + 1], x[: k + 1]), float) + np.asarray(M.trapz_loglog(Y[k:], x[k:]), float)
        close(p, got, 1e-9, "sum over two adjoining ranges", atol=1e-12 * np.max(mag))


def fn_misc(c, ctx):
    """axes_reshaper gives one axis per argument, keeping values and units; clipped log; power-law integral for any index, analytic; non-trivial: all"""
    ctx.nontrivial()
    arrs = [np.array(a) * (u.Hz if c["q"] and i % 2 else 1) for i, a in enumerate(c["arrs"])]
    out = M.axes_reshaper(*arrs)
    ensure(len(out) == len(arrs), "number of arrays")
    for i, (a, b) in enumerate(zip(arrs, out)):
        ensure(b.shape == tuple(a.size if j == i else 1 for j in range(len(arrs))), "shape of argument %d: %s" % (i, b.shape))
        ensure(np.all(np.ravel(b) == a), "values of argument %d" % i)
    v = np.array(c["v"])
    got = np.asarray(M.log(v), float)
    pos = v > 0
    close(got[pos], np.log(v[pos]), 1e-12, "log", atol=1e-15)
    ensure(np.all(np.isfinite(got)) and np.all(got[~pos] < -700), "log of zero is not a large negative number")
    p, g1 = c["p"], c["g1"]
    g2 = g1 * 10 ** c["dec"]
    s = (1 - p) * np.log(g2 / g1)
    exact = c["k"] * g1 ** (1 - p) * np.log(g2 / g1) * (np.expm1(s) / s if abs(s) > 1e-9 else 1 + s / 2)
    tol = 1e-9 + (1e-5 * np.log(max(g2, 1 / g1, g2 / g1)) if abs(p - 1) < 2e-5 else 3e-15 / abs(1 - p) / min(1, c["dec"]))
    close(float(M.power_law_integral(c["k"], p, g1, g2)), exact, tol, "power-law integral of index %g" % p)
    close(val(M.power_law_integral(c["k"] * u.Unit("cm-3"), p, g1, g2), "cm-3"), exact, tol, "power-law integral with units")


def strat_misc():
    return st.fixed_dictionaries(dict(arrs=st.lists(st.lists(gen.lin(-5, 5), min_size=1, max_size=5), min_size=1, max_size=5), q=st.booleans(), v=st.lists(st.one_of(gen.logu(1e-300, 1e300), st.just(0.0)), min_size=1, max_size=5),
                                      p=st.one_of(gen.lin(-3, 5), gen.pick(1.0, 1.0 + 1e-7, 1.0 - 1e-12, 1.001, 0.999)), g1=gen.logu(1e-2, 1e4), dec=gen.logu(1e-3, 8), k=gen.logu(1e-10, 1e10)))


SUBS = [
    Sub("trapz_loglog", fn, strat, quick=4000, thorough=100000, shards=4),
    Sub("helpers", fn_misc, strat_misc, quick=3000, thorough=60000, shards=3),
]
