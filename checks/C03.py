"""SSA integrand of the particle distributions"""
import numpy as np
import astropy.units as u
from hypothesis import strategies as st

from agnpy.spectra import InterpolatedDistribution
from scipy.interpolate import CubicSpline, PchipInterpolator
from vlib import build, gen, ref
from vlib.cmp import close, ensure, val
from vlib.runner import Sub


def strat():
    return st.fixed_dictionaries(
        dict(d=gen.dist(mass=gen.pick("e", "p"), gmin=(1.0, 1e5), decades=(0.5, 6)), where=st.lists(gen.lin(-0.3, 1.3), min_size=1, max_size=12),
             bounds=gen.pick(None, 0.0, 2.3e-16, 1e-13), col=gen.pick(None, "col", "row"))
    )


def fn(c, ctx):
    """gamma^2 d/dgamma (n/gamma^2): against the analytic derivative, and against finite differences of the object's own density; zero outside; non-trivial: points inside"""
    d = c["d"]
    obj = build.dist(d)
    L = np.log(d["gamma_max"] / d["gamma_min"])
    g = np.array(sorted(d["gamma_min"] * np.exp(w * L) for w in c["where"]))
    g = g[(np.abs(g / d["gamma_min"] - 1) > 1e-9) & (np.abs(g / d["gamma_max"] - 1) > 1e-9)]
    if c["bounds"] is not None:
        # the bounds, possibly overstepped by rounding (first and last element of an increasing array)
        g = g[(g > d["gamma_min"]) & (g < d["gamma_max"])]
        g = np.concatenate([[d["gamma_min"] * (1 - c["bounds"])], g, [d["gamma_max"] * (1 + c["bounds"])]])
        ctx.label("bounds")
    if g.size == 0:
        return
    ctx.label(d["shape"])
    g = np.sort(g)
    want = ref.ssa_integrand(d, g)
    ctx.nontrivial(np.any(want != 0))
    arg = g.reshape(-1, 1) if c["col"] == "col" else g.reshape(1, -1) if c["col"] == "row" else g
    shape = arg.shape
    scale = np.abs(ref.n_of(d, g)) / g * 1e-9
    got = val(obj.SSA_integrand(arg), "cm-3", "SSA integrand")
    if got.shape != shape:
        close(got, want.reshape(shape), 1e-8, "SSA integrand")
    close(got.ravel(), want, 1e-8, "SSA integrand", atol=scale)
    got2 = val(obj.evaluate_SSA_integrand(arg, *obj.parameters), "cm-3").ravel()
    close(got2, want, 1e-8, "evaluate_SSA_integrand(gamma, *parameters)", atol=scale)
    # finite differences of the density itself, away from bounds and break
    ok = (g > d["gamma_min"] * 1.001) & (g < d["gamma_max"] * 0.999)
    if "gamma_b" in d:
        ok &= np.abs(g / d["gamma_b"] - 1) > 1e-3
    gi = g[ok]
    if gi.size:
        h = 1e-5
        if "gamma_c" in d:
            h = 1e-5 / (1 + gi / d["gamma_c"])
        up, dn = gi * (1 + h), gi * (1 - h)
        num = gi**2 * (val(obj(up), "cm-3") / up**2 - val(obj(dn), "cm-3") / dn**2) / (up - dn)
        close(got.ravel()[ok], num, 1e-5, "SSA integrand vs finite differences", atol=np.abs(ref.n_of(d, gi)) / gi * 1e-5 * (1 + gi / d.get("gamma_c", np.inf)))


def strat_interp():
    return st.fixed_dictionaries(
        dict(g0=gen.logu(1, 1e4), steps=st.lists(gen.lin(0.02, 0.5), min_size=5, max_size=20), wig=st.lists(gen.lin(-0.5, 0.5), min_size=21, max_size=21),
             p=gen.lin(-1, 4), norm=gen.logu(1e-3, 1e3), interp=gen.pick("cubic", "pchip"), where=st.lists(gen.lin(-0.2, 1.2), min_size=1, max_size=8),
             lead=st.integers(0, 1), trail=st.integers(0, 1))
    )


def fn_interp(c, ctx):
    """the same for distributions interpolated from a table (any norm): against the spline's derivative and against finite differences of the object's own density; non-trivial: points inside"""
    lg = np.log10(c["g0"]) + np.concatenate([[0], np.cumsum(c["steps"])])
    ln = 1 - c["p"] * lg + np.array(c["wig"][: lg.size])
    n = 10.0**ln
    lo, hi = c["lead"], lg.size - c["trail"]
    n[:lo] = n[hi:] = 0
    obj = InterpolatedDistribution(10.0**lg, n * u.Unit("cm-3"), norm=c["norm"], interpolator={"cubic": CubicSpline, "pchip": PchipInterpolator}[c["interp"]])
    f = {"cubic": CubicSpline, "pchip": PchipInterpolator}[c["interp"]](lg[lo:hi], ln[lo:hi])
    a, b = lg[lo], lg[hi - 1]
    lq = np.array(sorted(a + w * (b - a) for w in c["where"]))
    lq = lq[(np.abs(lq - a) > 1e-6) & (np.abs(lq - b) > 1e-6)]
    if lq.size == 0:
        return
    q = 10.0**lq
    ins = (lq > a) & (lq < b)
    x = np.clip(lq, a, b)
    dens = c["norm"] * 10.0 ** f(x)
    want = np.where(ins, dens * (f.derivative()(x) - 2) / q, 0.0)
    ctx.nontrivial(ins.any())
    got = val(obj.SSA_integrand(q.copy()), "cm-3")
    close(got[ins], want[ins], 1e-7, "SSA integrand", atol=(dens / q * 1e-8)[ins])
    ensure(np.all(got[~ins] == 0), "SSA integrand not zero outside the table")
    got2 = val(obj.evaluate_SSA_integrand(q.copy(), *obj.parameters), "cm-3")
    close(got2, got, 1e-12, "evaluate_SSA_integrand(gamma, *parameters)", atol=0)
    got3 = val(obj.evaluate_SSA_integrand(q.copy(), 3 * c["norm"], *obj.parameters[1:]), "cm-3")
    close(got3, 3 * got, 1e-9, "evaluate_SSA_integrand with another norm", atol=0)
    k = ins & (np.min(np.abs(lq[:, None] - lg[None, :]), axis=1) > 1e-4)
    if k.any():
        up, dn = q[k] * (1 + 1e-5), q[k] * (1 - 1e-5)
        num = q[k] ** 2 * (val(obj(up), "cm-3") / up**2 - val(obj(dn), "cm-3") / dn**2) / (up - dn)
        close(got[k], num, 1e-4, "SSA integrand vs finite differences", atol=(dens / q * 1e-4)[k])


SUBS = [Sub("interpolated", fn_interp, strat_interp, quick=500, thorough=20000, shards=2), Sub("ssa_integrand", fn, strat, quick=1000, thorough=60000, shards=4)]
