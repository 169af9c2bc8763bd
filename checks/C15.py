"""External Compton on the CMB and on a point source behind the jet"""
import numpy as np
import astropy.units as u
from hypothesis import strategies as st

from agnpy.compton import ExternalCompton
from agnpy.targets import CMB, PointSourceBehindJet
from vlib import build, gen, ref
from vlib.cmp import close, close_noisy, ensure, val
from vlib.runner import Sub


def common():
    return dict(b=gen.blob(n_e=gen.dist(decades=(1.5, 6), gmin=(1, 1e4)), sizes=(40, 120)), w=st.lists(gen.lin(0.0, 1.03), min_size=1, max_size=4, unique=True), integ=gen.pick("trapz", "loglog"))


def nus(c, eps, omc=1.0):
    """frequencies between (almost) unscattered photons and just beyond the kinematic limit of the distribution"""
    b = c["b"]
    G = min(b["n_e"]["gamma_max"] * b["delta_D"], 1e9)
    hi = min(G, 2 * eps * omc * G**2)
    lo = min(eps, hi) * 1e-2
    es = np.exp(np.log(lo) + np.array(sorted(c["w"])) * np.log(hi / lo))
    return es * ref.MEC2 / ref.H / (1 + b["z"])


def on_grid(b):
    """a grid point of the external-frame Lorentz factors sits on a bound or on the break: rounding decides"""
    d = b["n_e"]
    g = 10 ** np.linspace(1, 9, b["gamma_e_size"]) / b["delta_D"]
    return any(np.any(np.abs(g / d[k] - 1) < 1e-8) for k in ("gamma_min", "gamma_max"))


def mu_s(b):
    beta = np.sqrt(1 - 1 / b["Gamma"] ** 2)
    return (1 - 1 / (b["Gamma"] * b["delta_D"])) / beta


def fn_ps(c, ctx):
    """point source: SED vs the model (head-on kernel, photons moving outwards along the axis), linear in luminosity and inverse square in distance; non-trivial: non-zero SED"""
    b = c["b"]
    ms = mu_s(b)
    if on_grid(b):
        return ctx.label("skip grid")
    if 1 - ms < 1e-7:
        return ctx.label("skip aligned")
    blob = build.blob(b)
    nu = nus(c, c["eps"], 1 - ms)
    g = 10 ** np.linspace(1, 9, b["gamma_e_size"])
    dL = val(blob.d_L, "cm")
    f = ref.INTEG[c["integ"]]
    u0 = c["L"] / (4 * np.pi * ref.C * c["r"] ** 2)
    model = lambda sh: ref.ec_sed(nu, b["z"], dL, b["delta_D"], ms, b["R_b"], lambda x: ref.n_of(b["n_e"], x), g, 1.0, 0.0, c["eps"], u0, f, shift=sh)  # noqa: E731
    want = model(0.0)
    ctx.nontrivial(want.max() > 1e-100)
    ctx.label("zero" if want.max() == 0 else "tiny" if want.max() < 1e-100 else "SED")
    t = PointSourceBehindJet(c["L"] * u.Unit("erg s-1"), c["eps"])
    ec = ExternalCompton(blob, t, r=build.length(c["r"]), integrator=build.INTEG[c["integ"]])
    got = val(ec.sed_flux(nu * u.Hz), "erg cm-2 s-1", "SED")
    tol = 1e-5 + 1e-12 / (1 - ms)
    close_noisy(got, model, tol, "EC on a point source", floor=1e-12, atol=1e-250)
    close(val(ec.sed_luminosity(nu * u.Hz), "erg s-1"), 4 * np.pi * dL**2 * got, 1e-8, "luminosity", atol=1e-190)
    t2 = PointSourceBehindJet(5 * c["L"] * u.Unit("erg s-1"), c["eps"])
    ec2 = ExternalCompton(blob, t2, r=2 * c["r"] * u.cm, integrator=build.INTEG[c["integ"]])
    close(val(ec2.sed_flux(nu * u.Hz), "erg cm-2 s-1"), 1.25 * got, 1e-7, "five times the luminosity at twice the distance", atol=1e-250)


def fn_cmb(c, ctx):
    """CMB: SED vs the model on the chosen angular grids; target energy and energy density follow the redshift; non-trivial: non-zero SED"""
    b = c["b"]
    ms = mu_s(b)
    if on_grid(b):
        return ctx.label("skip grid")
    ctx.label("aligned" if 1 - ms < 1e-7 else "misaligned")
    blob = build.blob(b)
    g = 10 ** np.linspace(1, 9, b["gamma_e_size"])
    dL = val(blob.d_L, "cm")
    f = ref.INTEG[c["integ"]]
    T = 2.72548
    u0 = 7.5657e-15 * T**4 * (1 + c["zc"]) ** 4
    e0 = 2.7 * ref.KB * T / ref.MEC2 * (1 + c["zc"])
    nu = nus(c, e0)
    model = lambda sh: ref.ec_sed(nu, b["z"], dL, b["delta_D"], ms, b["R_b"], lambda x: ref.n_of(b["n_e"], x), g, *ref.dirs_iso(u0, e0, c["nmu"], c["nphi"]), f, shift=sh)  # noqa: E731
    want = model(0.0)
    ctx.nontrivial(want.max() > 1e-100)
    ctx.label("zero" if want.max() == 0 else "tiny" if want.max() < 1e-100 else "SED")
    t = CMB(c["zc"])
    ec = ExternalCompton(blob, t, integrator=build.INTEG[c["integ"]])
    ec.set_mu(c["nmu"])
    ec.set_phi(c["nphi"])
    got = val(ec.sed_flux(nu * u.Hz), "erg cm-2 s-1", "SED")
    close_noisy(got, model, 2e-5, "EC on the CMB", floor=1e-12, atol=1e-250)


MX, MWT = np.polynomial.legendre.leggauss(200)


def transfer(s):
    """energy given by an ultra-relativistic electron to head-on photons of energy s in its rest frame, relative to the Thomson regime: integral of the Klein-Nishina cross section over scattering angles"""
    s = np.asarray(s, float)[..., None]
    x = MX
    p = 1 / (1 + s * (1 - x))
    dsig = 3 / 16 / np.pi * p**2 * (p + 1 / p - (1 - x**2))  # in units of the Thomson cross section
    return 2 * np.pi * np.sum(MWT * dsig * p * (1 - x), axis=-1)


def strat_bal():
    return st.fixed_dictionaries(dict(b=gen.blob(n_e=gen.dist(decades=(1.5, 4), gmin=(10, 1e3)), sizes=(120, 200)), L=gen.logu(1e38, 1e48), eps=gen.logu(1e-10, 1e-2), r=gen.logu(1e15, 1e21), cmb=st.booleans(), zc=gen.lin(0, 3), nmu=st.integers(6, 12), nphi=st.integers(5, 9)))


def fn_bal(c, ctx):
    """energy balance: the flux integrated over all frequencies is the energy the electrons hand over to the photons reaching them, direction by direction, with the Klein-Nishina cross section; non-trivial: always"""
    b = c["b"]
    ms = mu_s(b)
    if on_grid(b) or (1 - ms < 1e-5 and not c["cmb"]):
        return ctx.label("skip")
    blob = build.blob(b)
    g = 10 ** np.linspace(1, 9, b["gamma_e_size"])
    N = ref.n_of(b["n_e"], g / b["delta_D"])
    dL = val(blob.d_L, "cm")
    if c["cmb"]:
        t = CMB(c["zc"])
        eps, u0 = 2.7 * ref.KB * 2.72548 / ref.MEC2 * (1 + c["zc"]), 7.5657e-15 * 2.72548**4 * (1 + c["zc"]) ** 4
        ec = ExternalCompton(blob, t)
        ec.set_mu(c["nmu"])
        ec.set_phi(c["nphi"])
        mu, phi = np.linspace(-1, 1, c["nmu"])[:, None], np.linspace(0, 2 * np.pi, c["nphi"])
        cs = mu * ms + np.sqrt((1 - mu**2) * (1 - ms**2)) * np.cos(phi)
        omc, w = 1 - cs, ref.tw(mu.ravel())[:, None] * ref.tw(phi) / (4 * np.pi)
        omc, w = omc.ravel(), w.ravel()
    else:
        t = PointSourceBehindJet(c["L"] * u.Unit("erg s-1"), c["eps"])
        eps, u0 = c["eps"], c["L"] / (4 * np.pi * ref.C * c["r"] ** 2)
        ec = ExternalCompton(blob, t, r=c["r"] * u.cm)
        omc, w = np.array([1 - ms]), np.array([1.0])
    ctx.label("cmb" if c["cmb"] else "point source")
    # energy per unit time of one electron, on all directions
    P = ref.ST * ref.C * u0 * g**2 * np.sum(w * omc**2 * transfer(g[:, None] * eps * omc), axis=1)
    V = 4 / 3 * np.pi * b["R_b"] ** 3
    integrand = N * P
    want = b["delta_D"] ** 3 * V * ref.trapz(integrand, g) / (4 * np.pi * dL**2)
    if want < 1e-100:
        return ctx.label("tiny")
    G = g[N > 0]
    if G.size < 15:
        return ctx.label("few nodes")
    lo, hi = 1e-2 * eps * min(1, omc.max() * G[0] ** 2), G[-1] * 1.01
    es = np.geomspace(lo, min(hi, 4.2 * eps * omc.max() * G[-1] ** 2), 300 if c["cmb"] else 1200)
    sed = val(ec.sed_flux(es * ref.MEC2 / ref.H / (1 + b["z"]) * u.Hz), "erg cm-2 s-1")
    got = np.trapezoid(sed, np.log(es))
    ctx.nontrivial()
    close(got, want, 0.15 if c["cmb"] else 0.03, "flux over all frequencies vs energy given by the electrons")


def strat_ps():
    return st.fixed_dictionaries(dict(common(), L=gen.logu(1e38, 1e48), eps=gen.logu(1e-10, 1e-1), r=gen.logu(1e15, 1e21)))


def strat_cmb():
    return st.fixed_dictionaries(dict(common(), zc=gen.lin(0, 3), nmu=st.integers(5, 25), nphi=st.integers(4, 14)))


SUBS = [
    Sub("point_source", fn_ps, strat_ps, quick=2400, thorough=20000, shards=4),
    Sub("cmb", fn_cmb, strat_cmb, quick=800, thorough=6000, shards=8),
    Sub("energy_balance", fn_bal, strat_bal, quick=240, thorough=2000, shards=8),
]
