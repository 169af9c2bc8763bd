"""Absorption of gamma rays on the synchrotron photons of the emission region itself"""
import numpy as np
import astropy.units as u
from hypothesis import strategies as st

from agnpy.absorption import Absorption
from vlib import build, gen, ref
from vlib.cmp import close, ensure, raises, val
from vlib.runner import Sub
from agnpy.targets import PointSourceBehindJet


def strat():
    return st.fixed_dictionaries(dict(b=gen.blob(n_e=gen.dist(decades=(0.5, 6), k=gen.logu(1e-4, 1e8)), sizes=(30, 90)), x=st.lists(gen.lin(-2, 8), min_size=1, max_size=5),
                                      n=st.integers(20, 200), margin=gen.pick(0.01, 0.01, 1e-4, 0.1), other=gen.logu(1e-3, 2)))


def nu_peak(B, g):
    """peak frequency of monoenergetic electrons, Dermer & Menon Eq. 7.19"""
    return ref.E * B * g**2 / (2 * np.pi * ref.ME * ref.C)


def model(b, nu, n, margin):
    d, z, D, B, R = b["n_e"], b["z"], b["delta_D"], b["B"], b["R_b"]
    e1 = ref.H * nu * (1 + z) / (D * ref.MEC2)
    g = ref.grid(d, b["gamma_e_size"])
    ns = 10 ** np.linspace(np.log10(nu_peak(B, d["gamma_min"]) * margin), np.log10(nu_peak(B, d["gamma_max"]) * 100), n)
    # comoving emissivity of the electrons at the comoving frequencies ns, homogeneous sphere: u = 3/4 * 3 L'/(4 pi c R^2)
    eps = ref.H * ns / ref.MEC2
    y = 4 / 3 * np.pi * R**3 * ref.n_of(d, g)[:, None] * ref.synch_power(B, eps[None, :], g[:, None])
    Leps = ref.trapz(y, g)
    S = ref.ssa_integrand(d, g)
    tau = 2 * R * -1 / (8 * np.pi * ref.ME * eps**2) * (ref.LAMBDA_E / ref.C) ** 3 * ref.trapz(S[:, None] * ref.synch_power(B, eps[None, :], g[:, None]), g)
    att = np.where(tau < 1e-3, 1.0, ref.sphere_attenuation(np.where(tau < 1e-3, 1.0, tau)))
    ne = 0.75 * 3 * Leps * att / (4 * np.pi * ref.C * R**2) / (eps * ref.MEC2)
    near = np.abs(tau / 1e-3 - 1) < 1e-6
    out = [2 * R * ref.trapz(ne[:, None] * ref.sigma_gg(eps[:, None] * e1[None, :] * f / 2), eps) for f in (1, 1 - 1e-8, 1 + 1e-8)]
    return out[0], np.abs(out[2] - out[1]), near.any()


def fn(c, ctx):
    """optical depth vs comoving synchrotron photon density of a homogeneous self-absorbed sphere folded with the cross section; grid size and margin options; independent of the distance of the source; attenuation from it; non-trivial: absorption"""
    b = c["b"]
    blob = build.blob(b)
    d = b["n_e"]
    # thresholds: gamma rays meeting the photons around the peak of the most energetic electrons
    e1 = np.array(sorted(10 ** np.array(c["x"]))) / (ref.H * nu_peak(b["B"], d["gamma_max"]) / ref.MEC2)
    nu = e1 * ref.MEC2 * b["delta_D"] / (ref.H * (1 + b["z"]))
    a = Absorption(blob)
    want, slack, near = model(b, nu, 200, 0.01)
    ctx.nontrivial(np.any(want > 0))
    tol = 2e-3 if near else 1e-5
    got = val(a.tau(nu * u.Hz), "")
    for i in range(nu.size):
        close(got[i], want[i], tol, "optical depth on synchrotron photons", atol=2 * slack[i] + 1e-250)
    close(val(a.tau((nu * u.Hz).to("GHz")), ""), got, 1e-6, "frequencies in GHz", floor=1e-6, atol=1e-250)
    w2, s2, near = model(b, nu, c["n"], c["margin"])
    g2 = val(a.tau_on_synchrotron(blob, nu * u.Hz, nu_s_size=c["n"], delta_margin_low=c["margin"]), "")
    for i in range(nu.size):
        close(g2[i], w2[i], 2e-3 if near else 1e-5, "optical depth with %d synchrotron frequencies and margin %g" % (c["n"], c["margin"]), atol=2 * s2[i] + 1e-250)
    close(val(a.absorption(nu * u.Hz), ""), np.exp(-got), 1e-9, "attenuation")
    hom = val(a.absorption_homogeneous(nu * u.Hz), "")
    t = np.where(got > 0, got, 1)
    wh = np.where(got > 0, -np.expm1(-t) / t, 1)
    close(hom, wh, 1e-6, "homogeneous attenuation", atol=1e-3 * np.any((got > 0) & (got < 1e-12)))
    # same comoving physics at another distance
    near_blob = build.blob(b)
    near_blob.d_L = blob.d_L * c["other"]
    close(val(Absorption(near_blob).tau(nu * u.Hz), ""), got, 1e-6, "distance of the source", floor=1e-9, atol=1e-250)
    raises(ValueError, lambda: Absorption(PointSourceBehindJet(1e45 * u.Unit("erg s-1"), 1e-5)), "no distance for an external target")


SUBS = [Sub("synchrotron", fn, strat, quick=500, thorough=15000, shards=8)]
