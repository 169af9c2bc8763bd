"""Thermal emission of disk and torus, and the derived parameters of the targets"""
import numpy as np
import astropy.units as u
from astropy.coordinates import Distance
from hypothesis import strategies as st

from agnpy.targets import CMB, PointSourceBehindJet, RingDustTorus, SphericalShellBLR, SSDisk, lines_dictionary
from vlib import build, gen, ref
from vlib.cmp import close, ensure, raises, val
from vlib.runner import Sub
from checks.C16 import WL, line_eps

LU = u.Unit("erg s-1")
FU = "erg cm-2 s-1"

# radius and luminosity of the lines relative to H beta, Table 5 of Finke (2016)
REL = {
    "Lyepsilon": (2.7, 0.24),
    "Lydelta": (2.8, 0.24),
    "CIII": (0.83, 0.6),
    "NIII": (0.85, 0.6),
    "Lybeta": (1.2, 1.1),
    "OVI": (1.2, 1.1),
    "ArI": (4.5, 0.094),
    "Lyalpha": (0.27, 12),
    "OI": (4.0, 0.23),
    "SiII": (4.0, 0.23),
    "SiIV": (0.83, 1.0),
    "OIV]": (0.83, 1.0),
    "CIV": (0.83, 2.9),
    "NIV": (3.8, 0.3),
    "AlII": (3.8, 0.3),
    "CIII]": (0.46, 1.8),
    "[NeIV]": (5.8, 0.051),
    "MgII": (0.45, 1.7),
    "Hdelta": (3.4, 0.12),
    "Hgamma": (3.2, 0.3),
    "HeII": (0.63, 0.016),
    "Hbeta": (1.0, 1.0),
    "[ClIII]": (4.8, 0.039),
    "HeI": (0.39, 0.092),
    "Halpha": (1.3, 3.6),
}


def planck(nu, T):
    """specific intensity, erg s-1 cm-2 Hz-1 sr-1"""
    with np.errstate(all="ignore"):
        x = ref.H * nu / (ref.KB * np.where(T > 0, T, 1))
        return np.where(T > 0, 2 * ref.H * nu**3 / ref.C**2 / np.expm1(x), 0.0)


def disk(c):
    M = c["M"] * ref.MSUN
    Rg = ref.G * M / ref.C**2
    Ri, Ro = c["Rin"] * Rg, c["Rin"] * c["Rratio"] * Rg
    if c["Rg_units"]:
        d = SSDisk(c["M"] * u.M_sun, c["L"] * LU, c["eta"], c["Rin"], c["Rin"] * c["Rratio"], R_g_units=True)
    else:
        d = SSDisk((c["M"] * u.M_sun).to("kg"), (c["L"] * LU).to("W"), c["eta"], (Ri * u.cm).to("pc"), Ro * u.cm)
    return d, M, Rg, Ri, Ro


def fn_pars(c, ctx):
    """derived parameters of the disk (gravitational radius, accretion rate, Eddington ratio, temperature and photon energy at any radius), of the torus and of every BLR line; radii with the wrong kind of units and unknown lines are refused; non-trivial: all"""
    ctx.nontrivial()
    d, M, Rg, Ri, Ro = disk(c)
    mdot = c["L"] / (c["eta"] * ref.C**2)
    M8 = c["M"] / 1e8
    for name, got, unit, want in (
        ("R_g", d.R_g, "cm", Rg), ("R_in", d.R_in, "cm", Ri), ("R_out", d.R_out, "cm", Ro), ("m_dot", d.m_dot, "g s-1", mdot),
        ("L_Edd", d.L_Edd, "erg s-1", 1.26e46 * M8), ("l_Edd", d.l_Edd, "", c["L"] / (1.26e46 * M8)), ("R_in_tilde", d.R_in_tilde, "", c["Rin"]),
        ("R_out_tilde", d.R_out_tilde, "", c["Rin"] * c["Rratio"]), ("M_8", d.M_8, "", M8),
    ):
        close(val(got, unit), want, 1e-6, name)
    xs = c["Rin"] * c["Rratio"] ** np.array(c["x"])
    eps = 2.7e-4 * (c["L"] / (1.26e46 * M8) / (M8 * c["eta"])) ** 0.25 * xs**-0.75
    close(np.asarray(d.epsilon(xs), float), eps, 1e-6, "photon energy at R")
    phi = 1 - np.sqrt(c["Rin"] / xs)
    close(np.asarray(d.phi_disk(xs), float), phi, 1e-6, "radial function of the flux", atol=1e-9)
    T = (3 * ref.G * M * mdot * np.clip(phi, 0, None) / (8 * np.pi * (xs * Rg) ** 3 * ref.SB)) ** 0.25
    m = phi > 1e-6
    close(val(d.T(xs[m] * Rg * u.cm), "K"), T[m], 1e-5, "temperature at R")
    r = c["r"] * c["Rin"]
    mu = ref.disk_mu(c["Rin"], c["Rin"] * c["Rratio"], r, 37)
    close(np.asarray(d.evaluate_mu_from_r_tilde(d.R_in_tilde, d.R_out_tilde, r, size=37), float), mu, 1e-9, "cosines subtended by the disk")
    Rm = r * np.sqrt(mu**-2 - 1)
    loss = 1e-14 * c["r"] ** 2
    close(np.asarray(d.epsilon_mu(mu, r), float), 2.7e-4 * (c["L"] / (1.26e46 * M8) / (M8 * c["eta"])) ** 0.25 * Rm**-0.75, 1e-6 + loss, "photon energy at mu")
    close(np.asarray(d.phi_disk_mu(mu, r), float), 1 - np.sqrt(c["Rin"] / Rm), 1e-6 + loss, "radial function at mu", atol=1e-9 + loss)
    raises(TypeError, lambda: SSDisk(c["M"] * u.M_sun, c["L"] * LU, c["eta"], Ri * u.cm, Ro * u.cm, R_g_units=True), "radii with units when gravitational radii are announced")
    raises(TypeError, lambda: SSDisk(c["M"] * u.M_sun, c["L"] * LU, c["eta"], c["Rin"], c["Rin"] * 10), "plain radii without R_g_units")
    raises(TypeError, lambda: SSDisk(c["M"] * u.M_sun, c["L"] * LU, c["eta"], Ri * u.cm, c["Rin"] * 10), "one plain radius")
    dt = RingDustTorus(c["L"] * LU, c["xi"], c["T"] * u.K)
    close(val(dt.R_dt, "cm"), 3.5e18 * np.sqrt(c["L"] / 1e45) * (c["T"] / 1e3) ** -2.6, 1e-6, "sublimation radius")
    close(float(dt.Theta), ref.KB * c["T"] / ref.MEC2, 1e-6, "Theta")
    close(float(dt.epsilon_dt), 2.7 * ref.KB * c["T"] / ref.MEC2, 1e-6, "epsilon_dt")
    line = c["line"]
    b = SphericalShellBLR(c["L"] * LU, c["xi"], line, 1e17 * u.cm)
    close(float(b.epsilon_line), line_eps(line), 1e-6, "energy of line " + line)
    close(val(b.lambda_line, "Angstrom"), WL[line], 1e-9, "wavelength of line " + line)
    e = lines_dictionary[line]
    close(np.array([float(e["R_Hbeta_ratio"]), float(e["L_Hbeta_ratio"])]), np.array(REL[line]), 1e-9, "radius and luminosity of %s relative to H beta" % line)
    raises(NameError, lambda: SphericalShellBLR(c["L"] * LU, c["xi"], line + "x", 1e17 * u.cm), "unknown line")


def fn_disk(c, ctx):
    """disk black body: SED vs the model with Planck rings; the normalised SED has bolometric luminosity L_disk/2 per side at any redshift and inclination, does not depend on the inclination, same spectral shape; non-trivial: non-zero SED"""
    d, M, Rg, Ri, Ro = disk(c)
    z, mu_s = c["z"], c["mu_s"]
    mdot = c["L"] / (c["eta"] * ref.C**2)
    dL = Distance(z=z).to_value("cm")
    Tmax = (3 * ref.G * M * mdot / (8 * np.pi * Ri**3 * ref.SB)) ** 0.25
    nu = ref.KB * Tmax / ref.H * 10 ** np.array(c["lx"]) / (1 + z)
    R = np.linspace(Ri, Ro, 100)
    T = (3 * ref.G * M * mdot * np.clip(1 - np.sqrt(Ri / R), 0, None) / (8 * np.pi * R**3 * ref.SB)) ** 0.25

    def sed(x):
        return mu_s * x * 2 * np.pi / dL**2 * ref.trapz(R[:, None] * planck(x[None, :] * (1 + z), T[:, None]), R)

    want = sed(nu)
    ctx.nontrivial(want.max() > 1e-60)
    pars = (d.M_BH, d.m_dot, d.R_in, d.R_out, dL * u.cm)
    close(val(SSDisk.evaluate_multi_T_bb_sed(nu * u.Hz, z, *pars, mu_s=mu_s), FU), want, 1e-5, "multi-temperature black body", atol=1e-60)
    close(val(SSDisk.evaluate_multi_T_bb_sed(nu * u.Hz, z, *pars), FU), want / mu_s, 1e-5, "multi-temperature black body, face on", atol=1e-60)
    got = val(d.sed_flux(nu * u.Hz, z, mu_s), FU)
    g = np.logspace(3, 21, 100)
    L = 2 * 4 * np.pi * dL**2 * ref.trapz(sed(g) / g, g)
    close(got, want * c["L"] / L, 1e-5, "normalised disk SED", atol=1e-60)
    close(val(SSDisk.evaluate_multi_T_bb_norm_sed(nu * u.Hz, z, c["L"] * LU, *pars, mu_s), FU), got, 1e-6, "evaluate_multi_T_bb_norm_sed", atol=1e-60)
    close(val(d.sed_flux(nu * u.Hz, z), FU), got, 1e-6, "inclination of the normalised SED", atol=1e-60)
    x = np.logspace(6, 20, 3000)
    bol = 2 * 4 * np.pi * dL**2 * ref.trapz(val(d.sed_flux(x * u.Hz, z, mu_s), FU) / x, x)
    close(bol, c["L"], 0.05, "bolometric luminosity of the disk")


def fn_dt(c, ctx):
    """torus black body: SED vs Planck; the normalised SED integrates to xi_dt L_disk; non-trivial: non-zero SED"""
    z = c["z"]
    dL = Distance(z=z).to_value("cm")
    R = c["R"]
    dt = RingDustTorus(c["L"] * LU, c["xi"], c["T"] * u.K, R * u.cm)
    nu = ref.KB * c["T"] / ref.H * 10 ** np.array(c["lx"]) / (1 + z)
    bb = np.pi * (R / dL) ** 2 * nu * planck(nu * (1 + z), np.array(c["T"]))
    ctx.nontrivial(bb.max() > 1e-60)
    close(val(RingDustTorus.evaluate_bb_sed(nu * u.Hz, z, c["T"] * u.K, R * u.cm, dL * u.cm), FU), bb, 1e-5, "torus black body", atol=1e-60)
    L = c["xi"] * c["L"]
    got = val(dt.sed_flux(nu * u.Hz, z), FU)
    close(val(RingDustTorus.evaluate_bb_norm_sed(nu * u.Hz, z, L * LU, c["T"] * u.K, R * u.cm, dL * u.cm), FU), got, 1e-6, "evaluate_bb_norm_sed", atol=1e-60)
    shape = bb * L / (4 * np.pi * R**2 * ref.SB * c["T"] ** 4)
    x = ref.KB * c["T"] / ref.H * np.logspace(-4, 2, 2000) / (1 + z)
    bol = 4 * np.pi * dL**2 * ref.trapz(val(dt.sed_flux(x * u.Hz, z), FU) / x, x)
    if np.allclose(got, shape, rtol=1e-5, atol=1e-60) and not np.allclose(got, shape * (1 + z), rtol=1e-5, atol=1e-60):
        close(bol * (1 + z), L, 2e-3, "bolometric luminosity of the torus, corrected for the recorded factor")
        ctx.known_wrong("C21-torus-luminosity-redshift")
        return
    close(got, shape * (1 + z), 1e-5, "normalised torus SED", atol=1e-60)
    close(bol, L, 2e-3, "bolometric luminosity of the torus")


def strat():
    return st.fixed_dictionaries(dict(
        M=gen.logu(1e6, 1e10), L=gen.logu(1e42, 1e48), eta=gen.lin(0.04, 0.42), Rin=gen.lin(1.5, 30), Rratio=gen.logu(3, 1000), Rg_units=st.booleans(),
        x=st.lists(gen.lin(0, 1), min_size=1, max_size=6), xi=gen.lin(0.001, 1), T=gen.lin(100, 5000), R=gen.logu(1e16, 1e21), line=st.sampled_from(sorted(WL)),
        z=gen.logu(1e-3, 5), mu_s=gen.lin(0.05, 1), lx=st.lists(gen.lin(-4, 1.2), min_size=1, max_size=6), r=gen.logu(1, 1e4)))


SUBS = [
    Sub("parameters", fn_pars, strat, quick=500, thorough=12000, shards=3),
    Sub("disk_sed", fn_disk, strat, quick=500, thorough=12000, shards=6),
    Sub("torus_sed", fn_dt, strat, quick=500, thorough=12000, shards=3),
]
