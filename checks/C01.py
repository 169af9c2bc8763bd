"""Normalising constructors of the particle distributions"""
import numpy as np
import astropy.units as u
from hypothesis import strategies as st
from scipy.integrate import quad

import agnpy.spectra as S
from vlib import build, gen, ref
from vlib.cmp import close, ensure, val
from vlib.runner import Sub

ASSUMPTIONS = ["the integration grid of the distributions has 200 log-spaced points (documented default)"]


def strat():
    return st.fixed_dictionaries(
        dict(
            d=gen.dist(mass=gen.pick("e", "p"), gmin=(1.0, 1e4), integrator=gen.pick("trapz", "loglog")),
            how=gen.pick("density", "energy_density", "energy", "gamma_1"),
            amount=gen.logu(1e-12, 1e12),
            V=gen.logu(1e40, 1e54),
            unit=gen.pick(0, 1),
        )
    )


def make(c):
    """the object built from the total, and the description with the expected normalisation k"""
    d = dict(c["d"])
    cls = getattr(S, d["shape"])
    mass = build.MASS[d["mass"]]
    kw = dict(build.shape_params(d), gamma_min=d["gamma_min"], gamma_max=d["gamma_max"], integrator=build.INTEG[d["integrator"]])
    a = c["amount"]
    how = c["how"]
    mc2 = ref.MASS[d["mass"]] * ref.C**2
    unit1 = dict(d, k=1.0)
    g = ref.grid(d, 200)
    integ = ref.INTEG[d["integrator"]]
    if how == "gamma_1":
        kw["gamma_min"] = d["gamma_min"] = 1.0
        if d["gamma_max"] < 2:
            kw["gamma_max"] = d["gamma_max"] = 20.0
        unit1 = dict(d, k=1.0)
        q = (a * u.Unit("cm-3")).to("m-3") if c["unit"] else a * u.Unit("cm-3")
        obj = cls.from_density_at_gamma_1(q, mass, **kw)
        k = a / ref.n_of(unit1, 1.0)
    elif how == "density":
        q = (a * u.Unit("cm-3")).to("m-3") if c["unit"] else a * u.Unit("cm-3")
        obj = cls.from_total_density(q, mass, **kw)
        k = a / integ(ref.n_of(unit1, g), g)
    elif how == "energy_density":
        q = (a * u.Unit("erg cm-3")).to("J m-3") if c["unit"] else a * u.Unit("erg cm-3")
        obj = cls.from_total_energy_density(q, mass, **kw)
        k = a / (mc2 * integ(g * ref.n_of(unit1, g), g))
    else:
        W = a * c["V"]
        q = (W * u.erg).to("J") if c["unit"] else W * u.erg
        V = (c["V"] * u.Unit("cm3")).to("m3") if c["unit"] else c["V"] * u.Unit("cm3")
        obj = cls.from_total_energy(q, V, mass, **kw)
        k = a / (mc2 * integ(g * ref.n_of(unit1, g), g))
    return obj, dict(d, k=float(k)), mc2


def fn_norm(c, ctx):
    """density/energy density/energy/n(1) requested is the one obtained, with the given shape, bounds and mass; non-trivial: finite k>0"""
    obj, d, mc2 = make(c)
    ctx.label(c["how"])
    ctx.label(c["d"]["shape"])
    if not (np.isfinite(d["k"]) and 0 < d["k"] < 1e200):
        ctx.label("degenerate")
        return
    ctx.nontrivial()
    close(val(obj.k, "cm-3", "k"), d["k"], 1e-8, "normalisation from " + c["how"])
    ensure(obj.particle == {"e": "electrons", "p": "protons"}[d["mass"]], "particle type %s" % obj.particle)
    close(val(obj.mc2, "erg"), mc2, 1e-12, "rest energy")
    # shape and bounds kept
    g = ref.grid(d, 37)
    close(val(obj(g.copy()), "cm-3"), ref.n_of(d, g), 1e-8, "density of the normalised distribution")
    ensure(obj.gamma_min == d["gamma_min"] and obj.gamma_max == d["gamma_max"], "bounds changed")
    a = c["amount"]
    if c["how"] == "density":
        close(val(obj.integrate(), "cm-3"), a, 1e-8, "integral of n")
    elif c["how"] == "gamma_1":
        close(val(obj(1.0), "cm-3"), a, 1e-8, "n(gamma=1)")
    else:
        close(mc2 * val(obj.integrate(gamma_power=1), "cm-3"), a, 1e-8, "m c^2 * integral of gamma n")


def strat_int():
    return st.fixed_dictionaries(
        dict(
            d=gen.dist(mass=gen.pick("e", "p"), integrator=gen.pick("trapz", "loglog")),
            a=gen.lin(-0.1, 0.9), w=gen.lin(0.05, 1.0), power=gen.pick(0, 1, 2, -1), none=gen.pick(0, 1, 2, 3),
        )
    )


def fn_integrate(c, ctx):
    """integrate()/integral() over sub-ranges and powers of gamma against the model on the same grid and, loosely, against adaptive quadrature"""
    d = c["d"]
    obj = build.dist(d)
    L = np.log(d["gamma_max"] / d["gamma_min"])
    lo = d["gamma_min"] * np.exp(c["a"] * L)
    hi = lo * np.exp(c["w"] * L)
    kw = {}
    if c["none"] & 1:
        lo = d["gamma_min"]
        if hi <= lo:
            hi = d["gamma_max"]
    else:
        kw["gamma_low"] = lo
    if c["none"] & 2:
        hi = d["gamma_max"]
        if lo >= hi:
            return
    else:
        kw["gamma_up"] = hi
    g = np.logspace(np.log10(lo), np.log10(hi), 200)
    integ = ref.INTEG[d["integrator"]]
    n = ref.n_of(d, g)
    want = integ(n * g ** float(c["power"]), g)
    got = val(obj.integrate(gamma_power=c["power"], **kw), "cm-3")
    ctx.nontrivial(want > 0)
    # one grid point may fall on either side of a bound or of the break
    edge = np.max(n * g ** (c["power"] + 1.0)) * (np.log(hi / lo) / 199)
    near = np.any((np.abs(g / d["gamma_min"] - 1) < 1e-9) & (np.arange(200) > 0)) or np.any((np.abs(g / d["gamma_max"] - 1) < 1e-9) & (np.arange(200) < 199))
    if near:
        ctx.label("grid point on a bound")
        return
    close(got, want, 1e-8, "integrate")
    stat = type(obj).integral(type(obj), lo, hi, gamma_power=c["power"], integrator=build.INTEG[d["integrator"]], k=d["k"],
                              gamma_min=d["gamma_min"], gamma_max=d["gamma_max"], **build.shape_params(d))
    close(np.asarray(stat, float), want, 1e-8, "integral (static)")
    a, b = max(lo, d["gamma_min"]), min(hi, d["gamma_max"])
    if a < b:
        f = lambda t: float(ref.n_of(d, np.exp(t))) * np.exp(t * (c["power"] + 1))  # noqa: E731
        pts = [np.log(d[key]) for key in ("gamma_b",) if key in d and a < d[key] < b]
        true = quad(f, np.log(a), np.log(b), points=pts or None, limit=200)[0]
        # the 200-point rule: (d ln gamma)^2 curvature error plus one cell at each cut
        h = np.log(hi / lo) / 199
        slope = 8.0 + (b / d["gamma_c"] if "gamma_c" in d else 0)
        close(got, true, 0.02 + (slope * h) ** 2 / 4, "integrate vs quadrature", atol=2.5 * edge)


SUBS = [
    Sub("normalisation", fn_norm, strat, quick=900, thorough=40000, shards=4),
    Sub("integrate", fn_integrate, strat_int, quick=600, thorough=20000, shards=4),
]
