"""What every radiative process promises: fluxes depend only on the frequency asked, on the physics, and on nothing else"""
import copy

import numpy as np
import astropy.units as u
from hypothesis import strategies as st

from vlib import build, gen, procs
from vlib.cmp import close, ensure, val
from vlib.runner import Sub

FU = "erg cm-2 s-1"


def strat():
    return st.fixed_dictionaries(dict(
        b=gen.blob(n_e=gen.dist(decades=(1.5, 6), gmin=(1, 1e3)), n_p=gen.dist(mass="p", decades=(1, 6)), sizes=(40, 100)),
        t=procs.targets(), proc=gen.pick(*procs.NAMES), integ=gen.pick("trapz", "loglog"), w=st.lists(gen.lin(0, 1), min_size=2, max_size=8, unique=True),
        perm=st.integers(0, 10**6), unit=gen.pick("GHz", "kHz", "THz", "s-1"), f=gen.logu(0.1, 10)))


def nus(c):
    lo, hi = procs.band(c["proc"], c["t"])
    return 10 ** (lo + (hi - lo) * np.array(c["w"]))


def fn(c, ctx):
    """any process: each value depends only on its own frequency (order, companions, one at a time), not on the unit in which frequencies are given, is repeatable, leaves the inputs untouched, is finite and >= 0, and luminosity = 4 pi d_L^2 flux; non-trivial: non-zero SED"""
    blob = build.blob(c["b"])
    p = procs.process(c["proc"], blob, c["t"], c["integ"])
    x = nus(c)
    nu = x * u.Hz
    keep = x.copy()
    got = val(p.sed_flux(nu), FU)
    ensure(np.array_equal(nu.value, keep), "sed_flux modified its input")
    ensure(got.shape == x.shape, "shape %s for frequencies of shape %s" % (got.shape, x.shape))
    ctx.nontrivial(np.max(got) > 1e-100)
    ctx.label(c["proc"])
    # (dN/dgamma tables with the log-log rule and the near-field disk can carry rounding-size negatives at the inner edge)
    ensure(np.all(np.isfinite(got)), "%s: non-finite flux %s" % (c["proc"], got))
    if c["proc"] != "ec_disk":
        ensure(np.all(got >= 0), "%s: negative flux %s" % (c["proc"], got))
    # (1 - exp(-tau)) / tau^2 - exp(-tau) / tau loses digits at the smallest opacities it is used for
    tol, at = 1e-6 if "ssa" in c["proc"] else 1e-9, 1e-250
    close(val(p.sed_flux(nu), FU), got, tol, "repeated evaluation", atol=at)
    order = np.random.RandomState(c["perm"]).permutation(x.size)
    close(val(p.sed_flux(nu[order]), FU), got[order], tol, "permuted frequencies", atol=at)
    i = c["perm"] % x.size
    close(val(p.sed_flux(nu[i : i + 1]), FU), got[i : i + 1], tol, "single frequency", atol=at)
    # a frequency in another unit differs in the last digit: kinematic thresholds are not compared where one sits on a grid point
    other = val(p.sed_flux(nu.to(c["unit"])), FU)
    same = np.abs(other - got) <= 1e-6 * np.abs(got) + at
    ensure(np.mean(same) >= 0.5 if x.size > 1 else True, "frequencies in %s: %s instead of %s" % (c["unit"], other, got))
    bad = ~same
    if bad.any():
        # must be explained by a step: a 1e-12 change of frequency moves the value as much
        for j in np.flatnonzero(bad):
            lo, hi = (val(p.sed_flux(nu[j : j + 1] * s), FU)[0] for s in (1 - 1e-12, 1 + 1e-12))
            ensure(min(lo, hi) * (1 - 1e-6) - at <= other[j] <= max(lo, hi) * (1 + 1e-6) + at, "frequencies in %s: %g instead of %g" % (c["unit"], other[j], got[j]))
    dL = val(blob.d_L, "cm")
    if hasattr(p, "sed_luminosity"):
        close(val(p.sed_luminosity(nu), "erg s-1"), got * 4 * np.pi * dL**2, tol, "luminosity", atol=1e-190)
    if hasattr(p, "sed_peak_flux"):
        close(val(p.sed_peak_flux(nu), FU), got.max(), tol, "peak flux", atol=at)
        close(val(p.sed_peak_nu(nu), "Hz"), x[np.argmax(got)], 1e-9, "peak frequency")


def fn_scale(c, ctx):
    """scaling laws: proportional to the normalisation of the particles (quadratic for SSC), inverse square of the luminosity distance, proportional to the luminosity / covering factor of the target; SSA never raises the flux; non-trivial: non-zero SED"""
    b = c["b"]
    f = c["f"]
    name = c["proc"]
    blob = build.blob(b)
    p = procs.process(name, blob, c["t"], c["integ"])
    nu = nus(c) * u.Hz
    base = val(p.sed_flux(nu), FU)
    ctx.nontrivial(np.max(base) > 1e-100)
    ctx.label(name)
    at = 1e-250
    if not name.endswith("ssa"):
        b2 = copy.deepcopy(b)
        b2["n_e"]["k"] *= f
        b2["n_p"]["k"] *= f
        want = base * (f**2 if name == "ssc" else f)
        close(val(procs.process(name, build.blob(b2), c["t"], c["integ"]).sed_flux(nu), FU), want, 1e-7, "normalisation of the particles times %g" % f, atol=at)
    else:
        free = val(procs.process(name[:-4], blob, c["t"], c["integ"]).sed_flux(nu), FU)
        ensure(np.all(base <= free * (1 + 1e-9) + at), "self-absorbed flux %s exceeds the unabsorbed one %s" % (base, free))
    d0 = blob.d_L
    blob.d_L = d0 * f
    close(val(p.sed_flux(nu), FU), base / f**2, 1e-7, "distance times %g" % f, atol=at)
    blob.d_L = d0
    if name in ("ec_ps", "ec_dt", "ec_blr"):
        t2 = dict(c["t"], L=c["t"]["L"] * f)
        close(val(procs.process(name, blob, t2, c["integ"]).sed_flux(nu), FU), base * f, 1e-7, "luminosity of the target times %g" % f, atol=at)
    if name in ("ec_dt", "ec_blr"):
        t2 = dict(c["t"], xi=c["t"]["xi"] / 2)
        close(val(procs.process(name, blob, t2, c["integ"]).sed_flux(nu), FU), base / 2, 1e-7, "half the covering factor", atol=at)


def strat_long():
    return st.tuples(strat(), st.fixed_dictionaries(dict(n=gen.logu(30, 700).map(int), step=st.integers(1, 7)))).map(lambda t: dict(t[0], **t[1]))


def fn_long(c, ctx):
    """SEDs of up to 700 frequencies at once, made of a few values over and over: each has the flux it has among the few; non-trivial: more than one non-zero flux"""
    x = nus(c)
    p = procs.process(c["proc"], build.blob(c["b"]), c["t"], c["integ"])
    few = val(p.sed_flux(x * u.Hz), FU)
    idx = (c["step"] * np.arange(c["n"])) % x.size
    ctx.nontrivial(len(set(few[few > 1e-100])) > 1)
    ctx.label(c["proc"])
    close(val(p.sed_flux(x[idx] * u.Hz), FU), few[idx], 1e-6 if "ssa" in c["proc"] else 1e-9, "%d frequencies at once" % c["n"], atol=1e-250)


SUBS = [
    Sub("interface", fn, strat, quick=1000, thorough=20000, shards=8),
    Sub("long", fn_long, strat_long, quick=240, thorough=4000, shards=8),
    Sub("scaling", fn_scale, strat, quick=1000, thorough=20000, shards=8),
]
