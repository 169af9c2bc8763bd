"""External Compton on the disk, the broad line region and the dust torus"""
import numpy as np
import astropy.units as u
from hypothesis import strategies as st

from agnpy.compton import ExternalCompton
from agnpy.targets import RingDustTorus, SphericalShellBLR, SSDisk, lines_dictionary
from vlib import build, gen, ref
from vlib.cmp import close, close_noisy, val
from vlib.runner import Sub
from checks.C15 import common, mu_s, nus, on_grid

LINES = sorted(lines_dictionary)
# rest wavelengths of Finke 2016, Table 5, in Angstrom
WL = dict(Lyepsilon=937.80, Lydelta=949.74, CIII=977.02, NIII=990.69, Lybeta=1025.72, OVI=1033.83, ArI=1066.66, Lyalpha=1215.67, OI=1304.35,
          SiII=1306.82, SiIV=1396.76, CIV=1549.06, NIV=1718.55, AlII=1721.89, MgII=2798.75, Hdelta=4102.89, Hgamma=4341.68, HeII=4687.02,
          Hbeta=4862.68, HeI=5877.29, Halpha=6564.61)
WL.update({"OIV]": 1402.06, "CIII]": 1908.73, "[NeIV]": 2423.83, "[ClIII]": 5539.43})


def line_eps(line):
    return ref.H * ref.C / (WL[line] * 1e-8) / ref.MEC2


def prep(c):
    b = c["b"]
    ms = mu_s(b)
    if on_grid(b) or ms < -1:
        return None
    blob = build.blob(b)
    return b, ms, blob, 10 ** np.linspace(1, 9, b["gamma_e_size"]), val(blob.d_L, "cm"), ref.INTEG[c["integ"]]


def fn_dt(c, ctx):
    """dust torus ring: SED vs the model at any height, with explicit or sublimation radius; non-trivial: non-zero SED"""
    p = prep(c)
    if p is None:
        return
    b, ms, blob, g, dL, f = p
    kw = {} if c["R"] is None else dict(R_dt=build.length(c["R"]))
    t = RingDustTorus(c["L"] * u.Unit("erg s-1"), c["xi"], c["T"] * u.K, **kw)
    R = c["R"] or 3.5e18 * np.sqrt(c["L"] / 1e45) * (c["T"] / 1e3) ** -2.6
    r = R * c["rr"]
    nu = nus(c, 2.7 * ref.KB * c["T"] / ref.MEC2)
    model = lambda sh: ref.ec_sed(nu, b["z"], dL, b["delta_D"], ms, b["R_b"], lambda x: ref.n_of(b["n_e"], x), g,
                      *ref.dirs_ring(c["xi"] * c["L"], 2.7 * ref.KB * c["T"] / ref.MEC2, R, r, c["nphi"]), f, shift=sh)  # noqa: E731
    want = model(0.0)
    ctx.nontrivial(want.max() > 1e-100)
    ctx.label("inside the ring" if c["rr"] < 1 else "beyond the ring")
    ec = ExternalCompton(blob, t, r=r * u.cm, integrator=build.INTEG[c["integ"]])
    ec.set_phi(c["nphi"])
    got = val(ec.sed_flux(nu * u.Hz), "erg cm-2 s-1", "SED")
    close_noisy(got, model, 3e-5, "EC on the dust torus", floor=1e-12, atol=1e-250)


def fn_blr(c, ctx):
    """spherical shell BLR: SED vs the model inside and outside the shell, every line; photons below the blob push it, photons above hit it head-on; non-trivial: non-zero SED"""
    p = prep(c)
    if p is None:
        return
    b, ms, blob, g, dL, f = p
    R = c["R"] or 1e17
    r = R * c["rr"]
    # a shell element exactly at the height of the blob is a sign tie
    if np.any(np.abs(r / R - np.linspace(-1, 1, c["nmu"])) < 1e-6):
        return
    nu = nus(c, line_eps(c["line"]))
    t = SphericalShellBLR(c["L"] * u.Unit("erg s-1"), c["xi"], c["line"], build.length(R))
    model = lambda sh: ref.ec_sed(nu, b["z"], dL, b["delta_D"], ms, b["R_b"], lambda x: ref.n_of(b["n_e"], x), g,
                      *ref.dirs_shell(c["xi"] * c["L"], line_eps(c["line"]), R, r, c["nmu"], c["nphi"]), f, shift=sh)  # noqa: E731
    want = model(0.0)
    ctx.nontrivial(want.max() > 1e-100)
    ctx.label("inside the shell" if c["rr"] < 1 else "outside the shell")
    ec = ExternalCompton(blob, t, r=r * u.cm, integrator=build.INTEG[c["integ"]])
    ec.set_mu(c["nmu"])
    ec.set_phi(c["nphi"])
    got = val(ec.sed_flux(nu * u.Hz), "erg cm-2 s-1", "SED")
    close_noisy(got, model, 3e-5, "EC on the BLR", floor=1e-12, atol=1e-250)


def fn_disk(c, ctx):
    """Shakura-Sunyaev disk: SED vs the model, radii given in gravitational radii or in cm; non-trivial: non-zero SED"""
    p = prep(c)
    if p is None:
        return
    b, ms, blob, g, dL, f = p
    M = c["M"] * ref.MSUN
    Rg = ref.G * M / ref.C**2
    Rin, Rout = c["Rin"] * Rg, c["Rin"] * c["Rratio"] * Rg
    r = c["rr"] * Rg
    nu = nus(c, ref.disk_pars(M, c["L"], c["eta"])[2] * c["Rin"] ** -0.75)
    if c["Rg_units"]:
        t = SSDisk(c["M"] * u.M_sun, c["L"] * u.Unit("erg s-1"), c["eta"], c["Rin"], c["Rin"] * c["Rratio"], R_g_units=True)
    else:
        t = SSDisk(c["M"] * u.M_sun, c["L"] * u.Unit("erg s-1"), c["eta"], build.length(Rin), build.length(Rout))
    model = lambda sh: ref.ec_sed(nu, b["z"], dL, b["delta_D"], ms, b["R_b"], lambda x: ref.n_of(b["n_e"], x), g,
                      *ref.dirs_disk(M, c["L"], c["eta"], Rin, Rout, r, c["nmu"], c["nphi"]), f, shift=sh)  # noqa: E731
    want = model(0.0)
    ctx.nontrivial(want.max() > 1e-100)
    ctx.label("near" if c["rr"] < c["Rin"] * c["Rratio"] else "far")
    ec = ExternalCompton(blob, t, r=r * u.cm, integrator=build.INTEG[c["integ"]])
    ec.set_mu(c["nmu"])
    ec.set_phi(c["nphi"])
    got = val(ec.sed_flux(nu * u.Hz), "erg cm-2 s-1", "SED")
    # mu -> 1 far from the disk: (mu^-2 - 1) loses digits, the floor covers it
    loss = 1e-15 * (c["rr"] / c["Rin"]) ** 2 * 10
    noise = ref.ec_sed(nu, b["z"], dL, b["delta_D"], ms, b["R_b"], lambda x: ref.n_of(b["n_e"], x), g,
                       *ref.dirs_disk(M, c["L"], c["eta"], Rin, Rout, r, c["nmu"], c["nphi"], rounding=True), f)
    close_noisy(got, model, 5e-5 + loss, "EC on the accretion disk", floor=1e-11 + loss, atol=1e-250 + noise)


def strat_dt():
    return st.fixed_dictionaries(dict(common(), L=gen.logu(1e43, 1e48), xi=gen.lin(0.01, 1), T=gen.lin(200, 2000), R=st.one_of(st.none(), gen.logu(1e17, 1e20)), rr=gen.logu(1e-3, 1e3), nphi=st.integers(4, 50)))


def strat_blr():
    return st.fixed_dictionaries(dict(common(), L=gen.logu(1e43, 1e48), xi=gen.lin(0.001, 1), line=st.sampled_from(LINES), R=gen.logu(1e15, 1e18), rr=gen.logu(1e-2, 1e2), nmu=st.integers(6, 30), nphi=st.integers(4, 12)))


def strat_disk():
    return st.fixed_dictionaries(dict(common(), M=gen.logu(1e6, 1e10), L=gen.logu(1e43, 1e48), eta=gen.lin(0.05, 0.4), Rin=gen.lin(2, 20), Rratio=gen.logu(3, 1000), rr=gen.logu(10, 1e5), nmu=st.integers(6, 30), nphi=st.integers(4, 12), Rg_units=st.booleans()))


SUBS = [
    Sub("dust_torus", fn_dt, strat_dt, quick=1200, thorough=10000, shards=6),
    Sub("blr", fn_blr, strat_blr, quick=800, thorough=8000, shards=8),
    Sub("disk", fn_disk, strat_disk, quick=800, thorough=8000, shards=8),
]
