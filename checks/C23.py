"""Optical depth of gamma rays moving along the jet axis in the photon fields of disk, BLR, torus and point source"""
import numpy as np
import astropy.units as u
from hypothesis import strategies as st

from agnpy.absorption import Absorption
from agnpy.targets import PointSourceBehindJet, RingDustTorus, SphericalShellBLR, SSDisk
from vlib import build, gen, ref
from vlib.cmp import close, ensure, val
from vlib.runner import Sub
from checks.C16 import LINES
from checks.C21 import line_eps

LU = u.Unit("erg s-1")


def base():
    # thresholds of the photons met by the gamma rays decide the interesting frequencies: drawn relative to them
    return dict(L=gen.logu(1e43, 1e48), xi=gen.lin(0.001, 1), z=gen.logu(1e-3, 5), R=gen.logu(1e15, 1e20), rr=gen.logu(1e-2, 30),
                x=st.lists(gen.lin(-0.6, 6), min_size=1, max_size=5), l_size=st.integers(5, 40), phi=st.integers(4, 30), mu=st.integers(8, 50), unit=gen.pick("Hz", "Hz", "TeV", "J"), T=gen.lin(100, 2500),
                line=st.sampled_from(LINES), M=gen.logu(1e6, 1e10), eta=gen.lin(0.05, 0.4), Rin=gen.lin(2, 20), Rratio=gen.logu(5, 500), default=gen.pick(True, False, False, False), Rg=st.booleans(), kind=gen.pick("dt", "blr", "disk"),
                # a point of the path on the BLR shell: which one, and how far from it
                hit=st.one_of(st.none(), st.none(), st.none(), st.tuples(gen.lin(0, 1), st.one_of(st.just(0.0), gen.lin(-0.89e-4, 0.89e-4)))))


def strat():
    return st.fixed_dictionaries(base())


def gammas(c, eps):
    """gamma-ray energies (source frame) around and above the threshold for head-on collisions, and the observed frequencies"""
    e1 = np.array(sorted(10 ** np.array(c["x"]))) / eps
    nu = e1 * ref.MEC2 / ref.H / (1 + c["z"])
    return e1, nu * u.Hz


def setup(c, a):
    if not c["default"]:
        a.set_l(c["l_size"])
        a.set_phi(c["phi"])
        a.set_mu(c["mu"])
        return c["l_size"], c["phi"], c["mu"]
    return 50, 50, 100


def compare(ctx, a, nu, c, want, slack, tol, what):
    ctx.nontrivial(np.max(want) > 0)
    got = val(a.tau(nu), "")
    for i in range(got.size):
        close(got[i], want[i], tol, "%s at %s" % (what, nu[i]), atol=slack[i] * 2 + 1e-300)
    ensure(np.all(got >= 0), what + " is negative")
    close(val(a.absorption(nu), ""), np.exp(-got), 1e-9, "attenuation")
    return got


def fn_dt(c, ctx):
    """ring torus: optical depth vs photons of the ring met along the axis (directions of C16's model), any grid size, frequencies with redshift; non-trivial: above threshold"""
    R, r = c["R"], c["R"] * c["rr"]
    eps = 2.7 * ref.KB * c["T"] / ref.MEC2
    e1, nu = gammas(c, eps)
    a = Absorption(RingDustTorus(c["L"] * LU, c["xi"], c["T"] * u.K, build.length(R)), r * u.cm, z=c["z"])
    nl, nphi, _ = setup(c, a)

    def dirs(l):
        mu, phi, e0, du = ref.dirs_ring(c["xi"] * c["L"], eps, R, l, nphi)
        # 1 - l/sqrt(l^2+R^2) without cancellation
        x = np.sqrt(R * R + l * l)
        return R * R / (x * (x + l)), eps, np.sum(du) / (eps * ref.MEC2)

    want, slack = ref.tau_path(e1, r * np.logspace(0, 5, nl), dirs)
    compare(ctx, a, nu, c, want, slack, 1e-6, "optical depth on the torus")


def fn_blr(c, ctx):
    """BLR shell: optical depth vs photons of the shell met along the axis, starting inside, outside and near the shell; non-trivial: above threshold"""
    R, r = c["R"], c["R"] * c["rr"]
    eps = line_eps(c["line"])
    e1, nu = gammas(c, eps)
    if c["hit"]:
        f, delta = c["hit"]
        n = 50 if c["default"] else c["l_size"]
        r = R * (1 + delta) / np.logspace(0, 5, n)[int(f * min(n - 1, n // 3))]
        ctx.label("on the shell")
    a = Absorption(SphericalShellBLR(c["L"] * LU, c["xi"], c["line"], build.length(R)), r * u.cm, z=c["z"])
    nl, nphi, nmu = setup(c, a)
    l = r * np.logspace(0, 5, nl)
    d = np.abs(l / R - 1)
    if np.any((d > 0.9e-4) & (d < 1.1e-4)) or np.any(np.abs(l[:, None] / R - np.linspace(-1, 1, nmu)[None, 1:-1]) < 1e-6):
        return
    l = np.where(d < 1e-4, l + 1e-4 * R, l)  # documented: points on the shell are moved away from it
    ctx.label("crosses the shell" if r < R else "outside")

    def dirs(x):
        mu = np.linspace(-1, 1, nmu)
        x2 = R**2 + x**2 - 2 * x * R * mu
        k = (x - R * mu) / np.sqrt(x2)
        # the cosine comes from its sine: digits of 1 - cos are lost when it is small
        n = c["xi"] * c["L"] / (8 * np.pi * ref.C * x2) * ref.tw(mu) / (eps * ref.MEC2)
        s2 = (R**2 / x2) * (1 - mu**2)
        return np.where(k > 0, s2 / (1 + np.sqrt(np.clip(1 - s2, 0, 1))), 1 - k), eps, n

    want, slack = ref.tau_path(e1, l, dirs)
    got = compare(ctx, a, nu, c, want, slack, 1e-5, "optical depth on the BLR")


def fn_disk(c, ctx):
    """accretion disk: optical depth vs the photons of the disk rings met along the axis (temperature and flux profile of the Shakura-Sunyaev disk), radii in either unit; non-trivial: above threshold"""
    M = c["M"] * ref.MSUN
    Rg, mdot, ec = ref.disk_pars(M, c["L"], c["eta"])
    Ri, Ro = c["Rin"], c["Rin"] * c["Rratio"]
    r = 10 * c["rr"] * Ri * Rg
    if c["Rg"]:
        disk = SSDisk(c["M"] * u.M_sun, c["L"] * LU, c["eta"], Ri, Ro, R_g_units=True)
    else:
        disk = SSDisk(c["M"] * u.M_sun, c["L"] * LU, c["eta"], Ri * Rg * u.cm, (Ro * Rg * u.cm).to("pc"))
    R = np.linspace(Ri, Ro, 100)
    eps = ec * R**-0.75
    c = dict(c, default=False, phi=min(c["phi"], 12))  # axisymmetric: the grid in azimuth only matters for time
    e1, nu = gammas(c, eps[0])
    a = Absorption(disk, (r * u.cm).to("pc") if c["Rg"] else r * u.cm, z=c["z"])
    nl, nphi, _ = setup(c, a)

    def dirs(x):
        t = x / Rg
        x2 = t**2 + R**2
        # 3 L/(4 pi eta R^3 c ...) per ring, projected area of the ring (published formula)
        f = 3 * c["L"] / (8 * np.pi * c["eta"] * ref.C * Rg**2) * (1 - np.sqrt(Ri / R)) / R**2 / t**2 * (t**2 / x2) ** 1.5
        n = f * ref.tw(R) / (eps * ref.MEC2) 
        return R**2 / (np.sqrt(x2) * (np.sqrt(x2) + t)), eps, n

    want, slack = ref.tau_path(e1, r * np.logspace(0, 5, nl), dirs)
    compare(ctx, a, nu, c, want, slack, 1e-5, "optical depth on the disk")


def fn_laws(c, ctx):
    """any target on axis: linear in luminosity and covering factor, depends on nu (1+z) only, each frequency independent of the others, frequencies in energy units equal those in Hz, zero below threshold; a point source behind does not absorb; non-trivial: absorption"""
    R, r = c["R"], c["R"] * c["rr"]
    kind = c["kind"]
    ctx.label(kind)

    def make(L, z, rr=r):
        if kind == "dt":
            t, e = RingDustTorus(L * LU, c["xi"], c["T"] * u.K, build.length(R)), 2.7 * ref.KB * c["T"] / ref.MEC2
        elif kind == "blr":
            t, e = SphericalShellBLR(L * LU, c["xi"], c["line"], build.length(R)), line_eps(c["line"])
        else:
            t, e = SSDisk(c["M"] * u.M_sun, L * LU, c["eta"], c["Rin"], c["Rin"] * c["Rratio"], R_g_units=True), 1e-4
            rr = 10 * c["rr"] * c["Rin"] * ref.G * c["M"] * ref.MSUN / ref.C**2
        a = Absorption(t, rr * u.cm, z=z)
        a.set_l(12), a.set_phi(6), a.set_mu(20)
        return a, e

    a, e = make(c["L"], c["z"])
    e1, nu = gammas(c, e)
    tau = val(a.tau(nu), "")
    ctx.nontrivial(tau.max() > 0)
    if kind != "disk":
        close(val(make(c["L"] * 7, c["z"])[0].tau(nu), ""), 7 * tau, 1e-9, "linear in luminosity")
        ensure(np.all(tau[e1 * e < 0.999] == 0), "absorption below the threshold")
    h = val(make(c["L"], 0)[0].tau(nu * (1 + c["z"])), "")
    close(h, tau, 1e-6, "redshift of the gamma rays", floor=1e-9)
    perm = nu[::-1]
    close(val(a.tau(perm), "")[::-1], tau, 1e-9, "order of the frequencies", floor=1e-12)
    close(val(a.tau(nu[:1]), ""), tau[:1], 1e-9, "one frequency alone", floor=1e-12)
    close(val(a.tau(nu), ""), tau, 0, "repeated evaluation")
    close(val(a.tau(nu.to("THz")), ""), tau, 1e-6, "frequencies in THz", floor=1e-9)
    ps = Absorption(PointSourceBehindJet(c["L"] * LU, e), r * u.cm, z=c["z"])
    close(val(ps.tau(nu), ""), np.zeros(nu.size), 0, "point source behind, gamma rays along the axis")
    close(val(ps.absorption_homogeneous(nu), ""), np.ones(nu.size), 0, "no attenuation without optical depth")


SUBS = [
    Sub("torus", fn_dt, strat, quick=500, thorough=15000, shards=3),
    Sub("blr", fn_blr, strat, quick=400, thorough=10000, shards=4),
    Sub("disk", fn_disk, strat, quick=300, thorough=8000, shards=4),
    Sub("laws", fn_laws, strat, quick=400, thorough=10000, shards=3),
]
