"""Kinematics and geometry of the emission region"""
import copy

import numpy as np
import astropy.units as u
from astropy.cosmology import FlatLambdaCDM, Planck15, default_cosmology
from hypothesis import strategies as st

from agnpy.emission_regions import Blob
from vlib import build, gen, procs, ref
from vlib.cmp import close, ensure, raises, val
from vlib.runner import Sub

COSMO = {"default": None, "H50": FlatLambdaCDM(H0=50, Om0=0.3), "Planck15": Planck15}


def strat():
    return st.fixed_dictionaries(
        dict(b=gen.blob(), Gamma2=gen.lin(1.01, 60), theta2=st.one_of(gen.logu(0.01, 10), gen.lin(10, 179)), theta_unit=gen.pick("deg", "rad", "arcmin"),
             R_unit=gen.pick("cm", "pc", "m", "lyr"), z=gen.logu(1e-3, 6), cosmo=gen.pick("default", "H50", "Planck15"))
    )


def fn(c, ctx):
    """volume, variability time, Beta, viewing angle, Doppler factor round trip, luminosity distance, magnetic field in cgs, Lorentz factor grids; radius accepted in any length unit; non-trivial: all"""
    b = dict(c["b"], z=c["z"])
    ctx.nontrivial()
    cosmo = COSMO[c["cosmo"]]
    blob = Blob(R_b=(b["R_b"] * u.cm).to(c["R_unit"]), z=b["z"], delta_D=b["delta_D"], Gamma=b["Gamma"], B=b["B"] * u.G,
                n_e=build.dist(b["n_e"]), xi=b["xi"], gamma_e_size=b["gamma_e_size"], cosmology=cosmo)
    R = b["R_b"]
    close(val(blob.R_b, "cm"), R, 1e-12, "R_b")
    close(val(blob.V_b, "cm3"), 4 / 3 * np.pi * R**3, 1e-12, "V_b")
    close(val(blob.t_var, "s"), (1 + b["z"]) * R / (ref.C * b["delta_D"]), 1e-12, "t_var")
    beta = np.sqrt(1 - 1 / b["Gamma"] ** 2)
    close(float(blob.Beta), beta, 1e-10, "Beta")
    close(float(blob.mu_s), (1 - 1 / (b["Gamma"] * b["delta_D"])) / beta, 1e-9, "mu_s")
    # Doppler factor definition
    close(1 / (b["Gamma"] * (1 - float(blob.Beta) * float(blob.mu_s))), b["delta_D"], 1e-7 * max(1, b["Gamma"] ** 2 / 100), "delta_D = 1/(Gamma (1 - Beta mu_s))")
    if 1 - abs(blob.mu_s) > 1e-7:  # (Gamma, delta_D) rounding may put mu_s just above 1
        close(np.cos(val(blob.theta_s, "rad")), float(blob.mu_s), 1e-9, "cos(theta_s)")
        ensure(0 <= val(blob.theta_s, "deg") <= 180, "theta_s outside [0, 180] deg")
    close(val(blob.B_cgs, "cm(-1/2) g(1/2) s-1"), b["B"], 1e-12, "B_cgs")
    want_dL = (cosmo or default_cosmology.get()).luminosity_distance(b["z"]).to_value("cm")
    close(val(blob.d_L, "cm"), want_dL, 1e-9, "d_L")
    # grids
    ge = np.asarray(blob.gamma_e)
    ensure(ge.size == b["gamma_e_size"], "size of gamma_e")
    close(ge, ref.grid(b["n_e"], b["gamma_e_size"]), 1e-9, "gamma_e")
    close(np.asarray(blob.gamma_e_external_frame), 10 ** np.linspace(1, 9, b["gamma_e_size"]), 1e-9, "gamma_e_external_frame")
    raises(AttributeError, lambda: blob.n_p, "n_p of a blob without protons")
    raises(AttributeError, lambda: blob.gamma_p, "gamma_p of a blob without protons")
    # set_delta_D
    th = (c["theta2"] * u.deg).to(c["theta_unit"])
    blob.set_delta_D(c["Gamma2"], th)
    b2 = np.sqrt(1 - 1 / c["Gamma2"] ** 2)
    mu = np.cos(np.radians(c["theta2"]))
    ensure(blob.Gamma == c["Gamma2"], "Gamma after set_delta_D")
    close(float(blob.delta_D), 1 / (c["Gamma2"] * (1 - b2 * mu)), 1e-8 * max(1, c["Gamma2"] ** 2 / 100), "delta_D after set_delta_D")
    close(float(blob.mu_s), mu, 1e-9, "mu_s after set_delta_D", atol=1e-10 / b2)
    close(val(blob.theta_s, "deg"), c["theta2"], 1e-5, "theta_s after set_delta_D")
    close(val(blob.t_var, "s"), (1 + b["z"]) * R / (ref.C * float(blob.delta_D)), 1e-12, "t_var after set_delta_D")


def strat_aligned():
    return st.fixed_dictionaries(dict(lo=gen.logu(1.02, 60), step=gen.logu(1e-6, 1e-2), theta=gen.pick(0, 0, 180), t=procs.targets()))


def fn_aligned(c, ctx):
    """jets pointing exactly at the observer or away, for 200 neighbouring Lorentz factors: the cosine of the viewing angle stays within [-1, 1], the angle is there, and so is external-Compton emission where a slightly misaligned region has it; non-trivial: always"""
    b = Blob(gamma_e_size=20)
    ctx.nontrivial()
    want = 1 if c["theta"] == 0 else -1
    worst = None
    for i in range(200):
        b.set_delta_D(c["lo"] * (1 + i * c["step"]), c["theta"] * u.deg)
        m = float(b.mu_s)
        ensure(abs(m) <= 1 and abs(m - want) < 1e-10, "cosine of the viewing angle of an aligned jet %.17g (Gamma %.17g)" % (m, b.Gamma))
        close(val(b.theta_s, "deg"), c["theta"], 1e-9, "viewing angle", atol=1e-3)
        if worst is None or abs(m) > abs(float(worst.mu_s)):
            worst = copy.copy(b)
    nu = np.logspace(14, 26, 5) * u.Hz
    p = procs.process("ec_dt", worst, c["t"])
    got = val(p.sed_flux(nu), "erg cm-2 s-1")
    worst.set_delta_D(worst.Gamma, abs(c["theta"] - 1e-3) * u.deg)
    near = val(p.sed_flux(nu), "erg cm-2 s-1")
    ensure(np.all(np.isfinite(got)) and np.all(got[near > 1e-3 * near.max()] > 0), "external Compton emission %s of an aligned jet, %s of a nearly aligned one" % (got, near))


SUBS = [Sub("kinematics", fn, strat, quick=500, thorough=20000, shards=4), Sub("aligned", fn_aligned, strat_aligned, quick=80, thorough=2000, shards=4)]
