"""Energy densities of the target photon fields along the jet, in the galaxy frame and in the frame of the blob"""
import numpy as np
import astropy.units as u
from hypothesis import strategies as st

from agnpy.targets import CMB, PointSourceBehindJet, RingDustTorus, SphericalShellBLR, SSDisk
from vlib import build, gen, ref
from vlib.cmp import close, ensure, val
from vlib.runner import Sub, Violation
from checks.C16 import LINES

LU = u.Unit("erg s-1")
UU = "erg cm-3"
ARAD = 7.5657e-15


def strat():
    return st.fixed_dictionaries(dict(
        b=gen.blob(n_e=gen.dist(decades=(1, 3)), sizes=(20, 30)), L=gen.logu(1e42, 1e49), xi=gen.lin(0.001, 1), T=gen.lin(100, 2500), line=st.sampled_from(LINES),
        R=gen.logu(1e15, 1e20), rr=st.lists(gen.logu(1e-3, 1e4), min_size=1, max_size=6, unique=True), zc=gen.lin(0, 5), eps=gen.logu(1e-10, 1),
        M=gen.logu(1e5, 1e11), eta=gen.lin(0.04, 0.42), Rin=gen.lin(1.5, 30), Rratio=gen.logu(2, 1000), unit=gen.pick("cm", "pc", "km"), default_R=st.booleans()))


def boost(G, B, mu, dens, w):
    """energy density seen by an observer moving with (G, B): directions mu carrying dens*w"""
    return np.sum(dens * w * (G * (1 - B * mu)) ** 2, axis=0)


def fn(c, ctx):
    """CMB, point source and torus: closed forms in both frames; scalar and array distances, any length unit; non-trivial: all"""
    ctx.nontrivial()
    blob = build.blob(c["b"])
    G = c["b"]["Gamma"]
    B = np.sqrt(1 - 1 / G**2)
    z1 = 1 + c["zc"]
    cmb = CMB(c["zc"])
    u0 = ARAD * 2.72548**4 * z1**4
    close(val(cmb.u(), UU), u0, 1e-6, "CMB energy density")
    close(val(cmb.u(blob=blob), UU), u0 * G**2 * (1 + B**2 / 3), 1e-6, "CMB energy density in the frame of the blob")
    close(float(cmb.epsilon_0), 2.7 * ref.KB * 2.72548 / ref.MEC2 * z1, 1e-6, "CMB photon energy")
    R = c["R"] if not c["default_R"] else 3.5e18 * np.sqrt(c["L"] / 1e45) * (c["T"] / 1e3) ** -2.6
    r = np.array(c["rr"]) * R
    rq = (r * u.cm).to(c["unit"])
    ps = PointSourceBehindJet(c["L"] * LU, c["eps"])
    dt = RingDustTorus(c["L"] * LU, c["xi"], c["T"] * u.K, **({} if c["default_R"] else dict(R_dt=build.length(R))))
    close(val(dt.R_dt, "cm"), R, 1e-9, "torus radius")
    close(float(dt.epsilon_dt), 2.7 * ref.KB * c["T"] / ref.MEC2, 1e-9, "torus photon energy")
    for t, d, mu in ((ps, c["L"] / (4 * np.pi * ref.C * r**2), np.ones_like(r)), (dt, c["xi"] * c["L"] / (4 * np.pi * ref.C * (r**2 + R**2)), r / np.sqrt(r**2 + R**2))):
        close(val(t.u(rq), UU), d, 1e-7, "%s energy density" % t.name)
        close(val(t.u(rq[0]), UU), d[0], 1e-7, "%s energy density, scalar distance" % t.name)
        w = d * (G * (1 - B * mu)) ** 2
        # 1 - B mu loses digits for large Lorentz factors
        close(val(t.u(rq, blob=blob), UU), w, 1e-7, "%s energy density in the frame of the blob" % t.name)


def fn_blr(c, ctx):
    """BLR shell: integral over the shell in both frames; the frame of the blob needs the direction of the photons, reversed for shell elements ahead of the blob; non-trivial: some distance inside the shell"""
    blob = build.blob(c["b"])
    G = c["b"]["Gamma"]
    B = np.sqrt(1 - 1 / G**2)
    R = c["R"]
    mu = np.linspace(-1, 1)[:, None]
    rr = np.array([x for x in c["rr"] if np.all(np.abs(x - mu) > 1e-5) and abs(x - 1) > 1e-3])
    if rr.size == 0:
        return
    r = rr * R
    rq = (r * u.cm).to(c["unit"])
    ctx.nontrivial(np.any(rr < 1))
    ctx.label("inside" if np.any(rr < 1) else "outside only")
    t = SphericalShellBLR(c["L"] * LU, c["xi"], c["line"], build.length(R))
    x2 = R**2 + r**2 - 2 * r * R * mu
    w = ref.tw(mu[:, 0])[:, None]
    dens = c["xi"] * c["L"] / (8 * np.pi * ref.C * x2)
    close(val(t.u(rq), UU), np.sum(dens * w, axis=0), 1e-6, "BLR energy density")
    mustar = (r - R * mu) / np.sqrt(x2)
    want = boost(G, B, mustar, dens, w)
    got = val(t.u(rq, blob=blob), UU)
    # rounding of 1 - (R/x)^2 (1 - mu^2) limits the cosine
    tol = 1e-5 * G**2 / 100 + 1e-5
    ok = np.abs(got - want) <= tol * want
    if np.all(ok):
        return
    wrong = boost(G, B, np.abs(mustar), dens, w)
    if np.all(ok | (np.abs(got - wrong) <= tol * wrong)) and np.all(rr[~ok] < 1):
        ctx.known_wrong("C20-blr-direction")
        return
    close(got, want, tol, "BLR energy density in the frame of the blob")


def fn_disk(c, ctx):
    """disk: integral over the subtended cosines of the dissipated power in both frames; independent of whether radii are in cm or gravitational radii; non-trivial: all"""
    ctx.nontrivial()
    blob = build.blob(c["b"])
    G = c["b"]["Gamma"]
    B = np.sqrt(1 - 1 / G**2)
    M = c["M"] * ref.MSUN
    Rg = ref.G * M / ref.C**2
    Ri, Ro = c["Rin"] * Rg, c["Rin"] * c["Rratio"] * Rg
    rr = np.array(c["rr"])
    r = rr * Rg * 100
    rq = (r * u.cm).to(c["unit"])
    t1 = SSDisk(c["M"] * u.M_sun, c["L"] * LU, c["eta"], build.length(Ri), build.length(Ro))
    t2 = SSDisk(c["M"] * u.M_sun, c["L"] * LU, c["eta"], c["Rin"], c["Rin"] * c["Rratio"], R_g_units=True)
    res, res_b, noise, noise_b = [], [], [], []
    mdot = c["L"] / (c["eta"] * ref.C**2)
    for x in r:
        mu = ref.disk_mu(Ri, Ro, x, 100)
        R = x * np.sqrt(mu**-2 - 1)
        d = 3 * ref.G * M * mdot * (1 - np.sqrt(Ri / R)) / (8 * np.pi * ref.C * x**3 * mu * (mu**-2 - 1) ** 1.5)
        res.append(np.sum(d * ref.tw(mu)))
        # far away the cosines are 1 within (R/r)^2: what their rounding leaves of the radius, largest where the power vanishes
        e = 1e-15 / (mu**-2 - 1)
        dn = 3 * ref.G * M * mdot * e * (0.25 * np.sqrt(Ri / R) + 1.5 * np.abs(1 - np.sqrt(Ri / R))) / (8 * np.pi * ref.C * x**3 * mu * (mu**-2 - 1) ** 1.5)
        noise.append(np.sum(dn * np.abs(ref.tw(mu))))
        noise_b.append(np.sum(dn * np.abs(ref.tw(mu)) * (G * (1 - B * mu)) ** 2))
        res_b.append(np.sum(d * ref.tw(mu) * (G * (1 - B * mu)) ** 2))
    for t in (t1, t2):
        loss = 1e-15 * (r / Ri) ** 2
        tol, tol_b = 1e-9 + loss + 5 * np.array(noise) / np.abs(res), 1e-9 + loss + 5 * np.array(noise_b) / np.abs(res_b)
        close(val(t.u(rq), UU), res, tol, "disk energy density")
        close(val(t.u(rq[:1][0]), UU), res[0], tol[0], "disk energy density, scalar distance")
        # 1 - B mu: for large distances the cosines are 1 within (R/r)^2
        close(val(t.u(rq, blob=blob), UU), res_b, tol_b + 1e-14 * G**4, "disk energy density in the frame of the blob")


SUBS = [
    Sub("cmb_point_source_torus", fn, strat, quick=800, thorough=20000, shards=3),
    Sub("blr", fn_blr, strat, quick=800, thorough=20000, shards=3),
    Sub("disk", fn_disk, strat, quick=600, thorough=20000, shards=3),
]
