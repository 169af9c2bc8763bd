"""Synchrotron SED"""
import numpy as np
import astropy.units as u
from hypothesis import strategies as st

from agnpy.spectra import InterpolatedDistribution
from agnpy.synchrotron import Synchrotron
from agnpy.utils.math import gamma_e_to_integrate
from vlib import build, gen, ref
from vlib.cmp import close, ensure, val
from vlib.runner import Sub


def strat():
    return st.fixed_dictionaries(
        dict(b=gen.blob(), nu=gen.freqs(1e7, 1e27), integ=gen.pick("trapz", "loglog"))
    )


def fn(c, ctx):
    """SED from the blob and from the static evaluation vs the model on the same Lorentz-factor grid, both integrators; non-trivial: non-zero SED"""
    b = c["b"]
    blob = build.blob(b)
    nu = np.array(c["nu"])
    g = ref.grid(b["n_e"], b["gamma_e_size"])
    dL = val(blob.d_L, "cm")
    n = ref.n_of(b["n_e"], g)
    want = ref.synch_sed(nu, b["z"], dL, b["delta_D"], b["B"], b["R_b"], n, g, integ=ref.INTEG[c["integ"]])
    ctx.nontrivial(want.max() > 1e-60)
    ctx.label(c["integ"])
    syn = Synchrotron(blob, integrator=build.INTEG[c["integ"]])
    got = val(syn.sed_flux(nu * u.Hz), "erg cm-2 s-1", "SED")
    close(got, want, 2e-6, "synchrotron SED", floor=1e-14, atol=1e-250)
    # static route with the default grid of Lorentz factors
    if c["integ"] == "trapz":
        gd = ref.GAMMA_DEFAULT
        d = b["n_e"]
        for x in (d["gamma_min"], d["gamma_max"]):
            if np.any(np.abs(gd / x - 1) < 1e-9):
                return
        want = ref.synch_sed(nu, b["z"], dL, b["delta_D"], b["B"], b["R_b"], ref.n_of(d, gd), gd)
        got = Synchrotron.evaluate_sed_flux(nu * u.Hz, b["z"], blob.d_L, b["delta_D"], b["B"] * u.G, b["R_b"] * u.cm, type(blob.n_e), *blob.n_e.parameters)
        close(val(got, "erg cm-2 s-1"), want, 2e-6, "static evaluation on the default grid", floor=1e-14, atol=1e-250)


def strat_conv():
    return st.fixed_dictionaries(dict(b=gen.blob(n_e=gen.dist(decades=(1, 6))), x=gen.logu(1e-4, 3)))


def fn_conv(c, ctx):
    """the SED converges to the integral of the exact particle emissivity: at a frequency x times the critical frequency of the lowest-energy electrons, against adaptive quadrature with 2.5 % tolerance (R(x) parametrisation 0.2 %); an interpolated copy of the distribution gives the same SED; non-trivial: all"""
    from scipy.integrate import quad

    b = dict(c["b"], gamma_e_size=400)
    d = b["n_e"]
    blob = build.blob(b)
    # observed frequency from the comoving one
    nuc = 3 * ref.E * b["B"] * d["gamma_min"] ** 2 / (4 * np.pi * ref.ME * ref.C)
    nu = c["x"] * nuc * b["delta_D"] / (1 + b["z"])
    ctx.nontrivial()
    got = val(Synchrotron(blob).sed_flux([nu] * u.Hz), "erg cm-2 s-1")[0]
    dL = val(blob.d_L, "cm")
    eps = (1 + b["z"]) * ref.eps_of_nu(nu) / b["delta_D"]

    def f(t):
        g = np.exp(t)
        return float(ref.n_of(d, g)) * g * float(ref.synch_power(b["B"], eps, g))

    pts = [np.log(d["gamma_b"])] if "gamma_b" in d and d["gamma_min"] < d["gamma_b"] < d["gamma_max"] else None
    J = quad(f, np.log(d["gamma_min"]), np.log(d["gamma_max"]), points=pts, limit=300)[0]
    want = b["delta_D"] ** 4 * eps * 4 / 3 * np.pi * b["R_b"] ** 3 * J / (4 * np.pi * dL**2)
    close(got, want, 0.025, "SED vs quadrature")
    gt = ref.grid(d, 300)
    nt = ref.n_of(d, gt)
    if np.all(nt > 0):
        blob.n_e = InterpolatedDistribution(gt, nt * u.Unit("cm-3"))
        close(val(Synchrotron(blob).sed_flux([nu] * u.Hz), "erg cm-2 s-1")[0], got, 0.02, "SED of an interpolated copy")


SUBS = [
    Sub("reference", fn, strat, quick=700, thorough=30000, shards=6),
    Sub("converged", fn_conv, strat_conv, quick=150, thorough=5000, shards=4),
]
