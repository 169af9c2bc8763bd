"""Synchrotron building blocks"""
from importlib import import_module

import numpy as np
import astropy.units as u
from astropy.constants import m_e, m_p
from hypothesis import strategies as st
from scipy.special import kv

from agnpy.synchrotron import R, Synchrotron, nu_synch_peak
from agnpy.utils.conversion import B_to_cgs
from vlib import build, gen, ref
from vlib.cmp import close, ensure, val
from vlib.runner import Sub

M = {"e": m_e, "p": m_p}

SYNCH = import_module("agnpy.synchrotron.synchrotron")


def R_exact(x):
    """angle-averaged synchrotron function, Aharonian et al. 2010 Eq. D6"""
    k1, k2 = kv(1 / 3, x / 2), kv(2 / 3, x / 2)
    return x / 20 * ((8 + 3 * x**2) * k1**2 + x * k2 * (2 * k1 - 3 * x * k2))


def fn_R(c, ctx):
    """R(x) within 0.3 % of the exact angle-averaged synchrotron function, positive, and equal to the published parametrisation; non-trivial: x < 30"""
    x = np.array(sorted(c["x"]))
    got = np.asarray(R(x), float)
    ctx.nontrivial(np.any(x < 30))
    close(got, ref.R_approx(x), 1e-9, "R(x)", atol=1e-290)
    m = x < 30
    close(got[m], R_exact(x[m]), 3e-3, "R(x) vs exact function")
    ensure(np.all(got >= 0), "R(x) negative")


# undocumented helpers: looked at where the module has them (what they do shows in the spectra of C09 as well)
calc_x, epsilon_B, single_particle_synch_power = (getattr(SYNCH, n, None) for n in ("calc_x", "epsilon_B", "single_particle_synch_power"))


def strat_p():
    return st.fixed_dictionaries(
        dict(B=gen.logu(1e-6, 1e4), g=gen.logu(5, 1e10), mass=gen.pick("e", "p"), eps=st.lists(gen.logu(1e-30, 1e12), min_size=1, max_size=6), unit=gen.pick("G", "mG", "T"))
    )


def fn_power(c, ctx):
    """single-particle power: closed form, argument of R, peak frequency, and its integral over photon energies equal to 4/3 sigma_T (m_e/m)^2 c U_B gamma^2; field accepted in any magnetic unit; non-trivial: all"""
    B = (c["B"] * u.G).to(c["unit"])
    mass = ref.MASS[c["mass"]]
    ctx.nontrivial()
    Bc = B_to_cgs(B)
    eps = np.array(c["eps"])
    g = np.full(eps.shape, c["g"])
    want = ref.synch_power(c["B"], eps, g, mass)
    if single_particle_synch_power:
        close(val(single_particle_synch_power(Bc, eps, g, mass=M[c["mass"]]), "erg s-1"), want, 1e-6, "single particle power", atol=1e-280)
    x = 4 * np.pi * eps * mass**2 * ref.C**3 / (3 * ref.E * c["B"] * ref.H * g**2)
    if calc_x:
        close(np.asarray(calc_x(Bc, eps, g, M[c["mass"]]), float), x, 1e-9, "x")
    close(val(nu_synch_peak(B, g, M[c["mass"]]), "Hz"), ref.E * c["B"] * g**2 / (2 * np.pi * mass * ref.C), 1e-9, "peak frequency")
    if epsilon_B:
        close(np.asarray(epsilon_B(B), float), c["B"] / 4.414e13, 1e-9, "epsilon_B")
    want = 4 / 3 * ref.ST * (ref.ME / mass) ** 2 * ref.C * c["B"] ** 2 / (8 * np.pi) * c["g"] ** 2
    if single_particle_synch_power:
        # bolometric power
        xs = np.exp(np.linspace(np.log(1e-9), np.log(60), 3000))
        ev = xs * 3 * ref.E * c["B"] * ref.H * c["g"] ** 2 / (4 * np.pi * mass**2 * ref.C**3)
        P = val(single_particle_synch_power(Bc, ev, np.full(ev.shape, c["g"]), mass=M[c["mass"]]), "erg s-1")
        close(ref.trapz(P * ev, np.log(ev)), want, 5e-3, "bolometric synchrotron power")
    if c["mass"] == "e":
        b = build.blob(dict(R_b=1e16, z=0.1, delta_D=10, Gamma=10, B=c["B"], n_e=dict(shape="PowerLaw", k=1.0, p=2.0, gamma_min=10.0, gamma_max=1e5, mass="e"), n_p=None, xi=1.0, gamma_e_size=50, gamma_p_size=50))
        close(val(Synchrotron(b).electron_energy_loss_rate(g), "erg s-1"), np.full(g.shape, want), 1e-8, "synchrotron loss rate")


def strat_d():
    return st.fixed_dictionaries(dict(b=gen.blob(n_e=st.one_of(gen.dist(decades=(1, 7)), gen.dist(shapes=["PowerLaw"], decades=(3, 7)))), where=st.lists(gen.lin(-0.2, 1.2), min_size=1, max_size=6)))


def fn_delta(c, ctx):
    """monochromatic approximation: closed form at the Lorentz factors emitting at each frequency, and (broad power laws of index 3) agreement with the full SED within a factor 2; non-trivial: Lorentz factors inside the distribution"""
    b, d = c["b"], c["b"]["n_e"]
    blob = build.blob(b)
    L = np.log(d["gamma_max"] / d["gamma_min"])
    gs = np.array(sorted(d["gamma_min"] * np.exp(w * L) for w in c["where"]))
    gs = gs[(np.abs(gs / d["gamma_min"] - 1) > 1e-6) & (np.abs(gs / d["gamma_max"] - 1) > 1e-6)]
    if "gamma_b" in d:
        gs = gs[np.abs(gs / d["gamma_b"] - 1) > 1e-6]
    if gs.size == 0:
        return
    eps = gs**2 * b["B"] / 4.414e13
    nu = eps * ref.MEC2 / ref.H * b["delta_D"] / (1 + b["z"])
    n = ref.n_of(d, gs)
    ctx.nontrivial(np.any(n > 0))
    dL = val(blob.d_L, "cm")
    UB = b["B"] ** 2 / (8 * np.pi)
    want = b["delta_D"] ** 4 * ref.C * ref.ST * UB / (6 * np.pi * dL**2) * gs**3 * 4 / 3 * np.pi * b["R_b"] ** 3 * n
    got = val(Synchrotron(blob).sed_flux_delta_approx(nu * u.Hz), "erg cm-2 s-1")
    close(got, want, 1e-6, "delta approximation", atol=1e-250)
    if d["shape"] == "PowerLaw" and 1.8 < d["p"] < 3.5:
        mid = (gs > d["gamma_min"] * 10) & (gs < d["gamma_max"] / 10)
        if mid.any():
            ctx.label("vs full SED")
            full = val(Synchrotron(blob).sed_flux(nu[mid] * u.Hz), "erg cm-2 s-1")
            ratio = got[mid] / full
            ensure(np.all((ratio > 0.4) & (ratio < 2.5)), "delta approximation / full SED = %s" % ratio)


SUBS = [
    Sub("R_function", fn_R, lambda: st.fixed_dictionaries(dict(x=st.lists(gen.logu(1e-10, 300), min_size=1, max_size=10))), quick=300, thorough=10000, shards=2),
    Sub("single_particle", fn_power, strat_p, quick=300, thorough=10000, shards=3),
    Sub("delta_approximation", fn_delta, strat_d, quick=1600, thorough=10000, shards=3),
]
