"""Synchrotron self-Compton SED"""
import numpy as np
import astropy.units as u
from hypothesis import strategies as st

from agnpy.compton import SynchrotronSelfCompton
from vlib import build, gen, ref
from vlib.cmp import close, ensure, val
from vlib.runner import Sub


def strat():
    return st.fixed_dictionaries(
        dict(b=gen.blob(n_e=st.one_of(gen.dist(decades=(1, 6)), gen.dist(decades=(1, 6)), gen.dist(shapes=("PowerLaw",), gmin=(1, 1e5), decades=(4, 8))), sizes=(40, 120)), nu=gen.freqs(1e12, 1e29, nmin=1, nmax=5), integ=gen.pick("trapz", "trapz", "loglog"), ssa=st.booleans())
    )


def edge(d, g):
    return "gamma_b" in d and np.any(np.abs(g / d["gamma_b"] - 1) < 1e-9)


def fn(c, ctx):
    """SSC SED vs the model (isotropic Jones kernel folded with the synchrotron photon density of the same blob), with and without self-absorbed target, both integrators; quadratic in the electron density; non-trivial: non-zero SED"""
    b, d = c["b"], c["b"]["n_e"]
    blob = build.blob(b)
    nu = np.array(c["nu"])
    g = ref.grid(d, b["gamma_e_size"])
    if edge(d, g):
        return
    dL = val(blob.d_L, "cm")
    n = ref.n_of(d, g)
    S = ref.ssa_integrand(d, g) if c["ssa"] else None
    integ = c["integ"]
    if c["ssa"] and np.any(S > 0):
        integ = "trapz"
    f = ref.INTEG[integ]
    want = ref.ssc_sed(nu, b["z"], dL, b["delta_D"], b["B"], b["R_b"], n, g, S, f)
    ctx.nontrivial(want.max() > 1e-60)
    ctx.label(integ + ("+ssa" if c["ssa"] else ""))
    if c["ssa"]:
        nossa = ref.ssc_sed(nu, b["z"], dL, b["delta_D"], b["B"], b["R_b"], n, g, None, f)
        if np.any(nossa > 1.001 * want):
            ctx.label("absorbed target matters")
    ssc = SynchrotronSelfCompton(blob, ssa=c["ssa"], integrator=build.INTEG[integ])
    got = val(ssc.sed_flux(nu * u.Hz), "erg cm-2 s-1", "SED")
    # 1e-4 absolute floor on nothing: kernel edges are grid-exact
    close(got, want, 2e-5, "SSC SED", floor=1e-12, atol=1e-250)
    close(val(ssc.sed_luminosity(nu * u.Hz), "erg s-1"), 4 * np.pi * dL**2 * got, 1e-8, "SSC luminosity", atol=1e-190)
    if not c["ssa"]:
        b2 = build.blob(dict(b, n_e=dict(d, k=3 * d["k"])))
        got9 = val(SynchrotronSelfCompton(b2, integrator=build.INTEG[integ]).sed_flux(nu * u.Hz), "erg cm-2 s-1")
        close(got9, 9 * got, 1e-6, "SSC SED with three times the electrons", atol=1e-250)


def strat_bal():
    return st.fixed_dictionaries(
        dict(b=gen.blob(n_e=gen.dist(shapes=("PowerLaw", "BrokenPowerLaw", "LogParabola"), gmin=(20, 100), decades=(1.0, 1.6)), sizes=(200, 200)))
    )


def fn_balance(c, ctx):
    """energy balance in the Thomson regime: the comoving SSC luminosity equals the electrons' Thomson losses on the synchrotron photons, and the photon density integrates to u_ph_synch (5 %); non-trivial: scattering in the Thomson regime"""
    b = dict(c["b"])
    d = b["n_e"]
    b["B"] = min(b["B"], 1e-1)
    blob = build.blob(b)
    g = ref.grid(d, 200)
    n = ref.n_of(d, g)
    UB = b["B"] ** 2 / (8 * np.pi)
    M2 = ref.trapz(n * g**2, g)
    U = ref.ST * UB * b["R_b"] * M2
    epsmax = 30 * b["B"] / 4.414e13 * d["gamma_max"] ** 2
    if 4 * d["gamma_max"] * epsmax > 0.02 or not M2 > 0:
        ctx.label("Klein-Nishina: skipped")
        return
    # the documented grid of synchrotron frequencies begins at 1e5 Hz (observed)
    if 4.2e6 * b["B"] * d["gamma_min"] ** 2 * b["delta_D"] / (1 + b["z"]) < 3e6:
        ctx.label("below the grid of frequencies: skipped")
        return
    ctx.nontrivial()
    V = 4 / 3 * np.pi * b["R_b"] ** 3
    L = 4 / 3 * ref.ST * ref.C * U * V * M2
    nu = 10 ** np.linspace(7, 27, 120)
    ssc = SynchrotronSelfCompton(blob)
    sed = val(ssc.sed_flux(nu * u.Hz), "erg cm-2 s-1")
    dL = val(blob.d_L, "cm")
    Lc = 4 * np.pi * dL**2 * ref.trapz(sed, np.log(nu)) / b["delta_D"] ** 4
    close(Lc, L, 0.06, "comoving SSC luminosity vs Thomson losses")
    close(val(ssc.electron_energy_loss_rate_thomson(g[::50]), "erg s-1"), 4 / 3 * ref.ST * ref.C * U * g[::50] ** 2, 1e-6, "Thomson loss rate")


SUBS = [
    Sub("reference", fn, strat, quick=360, thorough=12000, shards=8),
    Sub("energy_balance", fn_balance, strat_bal, quick=40, thorough=1000, shards=8),
]
