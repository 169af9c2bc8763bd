"""InterpolatedDistribution"""
import numpy as np
import astropy.units as u
from hypothesis import strategies as st
from scipy.interpolate import Akima1DInterpolator, CubicSpline, PchipInterpolator

from agnpy.spectra import InterpolatedDistribution
from vlib import build, gen, ref
from vlib.cmp import close, ensure, raises, val
from vlib.runner import Sub

INTERP = {"cubic": CubicSpline, "pchip": PchipInterpolator, "akima": Akima1DInterpolator}


def strat():
    return st.fixed_dictionaries(
        dict(
            g0=gen.logu(1, 1e4), steps=st.lists(gen.lin(0.02, 0.6), min_size=4, max_size=25),
            logn=st.lists(gen.lin(-12, 6), min_size=26, max_size=26),
            smooth=st.booleans(), p=st.one_of(gen.lin(-1, 4), gen.lin(-2, 12)),
            zeros=st.lists(st.integers(0, 25), max_size=4), lead=st.integers(0, 2), trail=st.integers(0, 2),
            norm=gen.logu(1e-3, 1e3), interp=gen.pick("cubic", "pchip", "akima"), mass=gen.pick("e", "p"),
            query=st.lists(gen.lin(-0.3, 1.3), min_size=1, max_size=10), layout=gen.pick("1d", "col", "row"),
        )
    )


def table(c):
    lg = np.log10(c["g0"]) + np.concatenate([[0], np.cumsum(c["steps"])])
    N = lg.size
    if c["smooth"]:
        ln = 2 - c["p"] * lg
    else:
        # moderate wiggles: neighbouring values within a few decades
        ln = 2 - c["p"] * lg + 0.05 * np.array(c["logn"][:N])
    n = 10.0**ln
    keep = np.ones(N, bool)
    keep[: c["lead"]] = False
    if c["trail"]:
        keep[-c["trail"]:] = False
    for i in c["zeros"]:
        if i < N:
            keep[i] = False
    if keep.sum() < 4:
        keep[:] = True
    n = np.where(keep, n, 0.0)
    return 10.0**lg, n, keep


def fn(c, ctx):
    """nodes reproduced, zero densities ignored, log-log interpolation by the given interpolator, zero outside the non-empty range, linear in norm; power laws reproduced exactly; non-trivial: a query strictly between nodes"""
    g, n, keep = table(c)
    obj = InterpolatedDistribution(g.copy(), n * u.Unit("cm-3"), norm=c["norm"], mass=build.MASS[c["mass"]], interpolator=INTERP[c["interp"]])
    gk, nk = g[keep], n[keep]
    if (~keep).any():
        ctx.label("zeros in the table")
    close(np.array([obj.gamma_min, obj.gamma_max]), np.array([gk[0], gk[-1]]), 1e-12, "bounds")
    close(np.asarray(obj.parameters, float), np.array([c["norm"], gk[0], gk[-1]]), 1e-12, "parameters")
    close(val(obj(gk.copy()), "cm-3"), c["norm"] * nk, 1e-8, "value at the nodes")
    L = np.log(gk[-1] / gk[0])
    q = np.array(sorted(float(gk[0] * np.exp(w * L)) for w in c["query"]))
    q = q[(np.abs(q / gk[0] - 1) > 1e-8) & (np.abs(q / gk[-1] - 1) > 1e-8)]
    if q.size == 0:
        return
    f = INTERP[c["interp"]](np.log10(gk), np.log10(nk))
    ins = (q > gk[0]) & (q < gk[-1])
    want = np.where(ins, c["norm"] * 10.0 ** f(np.log10(np.clip(q, gk[0], gk[-1]))), 0.0)
    ctx.nontrivial(ins.any())
    arg = q.reshape(-1, 1) if c["layout"] == "col" else q.reshape(1, -1).copy() if c["layout"] == "row" else q.copy()
    got = val(obj(arg), "cm-3")
    ensure(got.shape == arg.shape, "shape %s for argument of shape %s" % (got.shape, arg.shape))
    got = got.ravel()
    close(got, want, 1e-8, "interpolated density")
    ensure(np.all(got[~ins] == 0), "not zero outside the interpolation range")
    if c["smooth"]:
        close(got[ins], c["norm"] * 10.0 ** (2 - c["p"] * np.log10(q[ins])), 1e-7, "power law through the nodes")
    # single values, and evaluation through the parameter list with another norm
    close(val(obj(np.array([q[0]])), "cm-3")[0], want[0], 1e-8, "single value")
    got3 = val(obj.evaluate(arg, 3.0, *obj.parameters[1:]), "cm-3").ravel()
    close(got3, 3.0 / c["norm"] * want, 1e-8, "evaluate with another norm")
    # SSA integrand
    sa = val(obj.SSA_integrand(q), "cm-3")
    df = f.derivative()(np.log10(np.clip(q, gk[0], gk[-1])))
    ws = np.where(ins, want * (df - 2) / q, 0.0)
    close(sa[ins], ws[ins], 1e-7, "SSA integrand", atol=(np.abs(want) / q * 1e-8)[ins])


def fn_types(c, ctx):
    """integer and scalar Lorentz factors give the same values as floats; integrals match the model grid; other units rejected"""
    g, n, keep = table(dict(c, zeros=[], lead=0, trail=0))
    obj = InterpolatedDistribution(g.copy(), n * u.Unit("cm-3"), norm=c["norm"], interpolator=INTERP[c["interp"]])
    lo, hi = int(np.ceil(g[0] * 1.01)), int(np.floor(g[-1] * 0.99))
    if lo + 3 < hi:
        ints = np.unique(np.linspace(lo, hi, 4).astype(int))
        want = val(obj(ints.astype(float)), "cm-3")
        ctx.nontrivial()
        close(val(obj(ints), "cm-3"), want, 1e-9, "integer Lorentz factors")
        close(val(obj(float(ints[1])), "cm-3"), want[1], 1e-9, "scalar Lorentz factor")
    gg = np.logspace(np.log10(g[0]), np.log10(g[-1]), 200)
    gg[0], gg[-1] = g[0], g[-1]
    f = INTERP[c["interp"]](np.log10(g), np.log10(n))
    v = c["norm"] * 10.0 ** f(np.log10(gg))
    close(val(obj.integrate(), "cm-3"), ref.trapz(v, gg), 1e-7, "integrate")
    close(val(obj.integrate(gamma_power=1), "cm-3"), ref.trapz(v * gg, gg), 1e-7, "integrate, first moment")
    raises(ValueError, lambda: InterpolatedDistribution(g.copy(), n * u.Unit("erg")), "density table in erg")


SUBS = [
    Sub("interpolation", fn, strat, quick=900, thorough=40000, shards=4),
    Sub("types_and_integrals", fn_types, strat, quick=300, thorough=10000, shards=2),
]
