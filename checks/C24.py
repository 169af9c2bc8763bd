"""Optical depth of gamma rays leaving at an angle to the jet axis"""
import numpy as np
import astropy.units as u
from hypothesis import strategies as st

from agnpy.absorption import Absorption
from agnpy.targets import PointSourceBehindJet, RingDustTorus, SphericalShellBLR
from vlib import build, gen, ref
from vlib.cmp import close, ensure, val
from vlib.runner import Sub, Violation
from checks.C16 import LINES
from checks.C21 import line_eps
from checks.C23 import compare, gammas, setup

LU = u.Unit("erg s-1")


def strat():
    return st.fixed_dictionaries(dict(
        L=gen.logu(1e43, 1e48), xi=gen.lin(0.001, 1), z=gen.logu(1e-3, 5), R=gen.logu(1e15, 1e20), rr=gen.logu(1e-2, 30), eps=gen.logu(1e-8, 1e-2),
        x=st.lists(gen.lin(-0.6, 6), min_size=1, max_size=5), l_size=st.integers(4, 20), phi=st.integers(4, 20), mu=st.integers(8, 30),
        T=gen.lin(100, 2500), line=st.sampled_from(LINES), mu_s=st.one_of(gen.lin(-0.95, 0.999), gen.lin(0.7, 0.9999), gen.logu(1e-9, 1e-3).map(lambda x: 1 - x)), default=gen.pick(True, False, False, False, False, False),
        # a point of the path on the BLR shell: which one, and how far from it
        hit=st.one_of(st.none(), st.none(), st.tuples(gen.lin(0, 1), st.one_of(st.just(0.0), gen.lin(-0.89e-4, 0.89e-4))))))


def path(c, n):
    """steps along the direction of the gamma ray, position (x, 0, z) for each"""
    r = c["R"] * c["rr"]
    s = np.sqrt(1 - c["mu_s"] ** 2)
    w = r * np.logspace(-5, 5, n)
    return r, s, w


def photons(P, G, d):
    """soft photons emitted at the points P (3, n) reaching G: 1 - cos(angle to the direction d), squared distance"""
    v = G[:, None] - P
    x2 = np.sum(v**2, axis=0)
    x = np.sqrt(x2)
    cos = d @ v / x
    # |v/x - d|^2 / 2 = 1 - cos, without cancellation
    return np.sum((v / x - d[:, None]) ** 2, axis=0) / 2, x2


def fn_ps(c, ctx):
    """point source behind the jet, gamma rays leaving at any angle: optical depth vs the photons met along the path; the closed form used for a given angle; non-trivial: above threshold"""
    r, s, w = path(c, 100)
    e1, nu = gammas(c, c["eps"])
    a = Absorption(PointSourceBehindJet(c["L"] * LU, c["eps"]), (r * u.cm).to("pc"), z=c["z"], mu_s=c["mu_s"])
    d = np.array([s, 0, c["mu_s"]])

    def dirs(x):
        omc, x2 = photons(np.zeros((3, 1)), np.array([x * s, 0, r + x * c["mu_s"]]), d)
        return omc, c["eps"], c["L"] / (4 * np.pi * ref.C * x2 * c["eps"] * ref.MEC2)

    want, slack = ref.tau_path(e1, w, dirs)
    compare(ctx, a, nu, c, want, slack, 1e-5, "optical depth on a point source")
    o = 1 - c["mu_s"]
    cl = c["L"] / (4 * np.pi * ref.C * c["eps"] * ref.MEC2 * r) * o * ref.sigma_gg(c["eps"] * e1 * o / 2)
    near = np.abs(c["eps"] * e1 * o / 2 - 1) < 1e-6
    close(val(a.tau_ps_behind_blob(nu), "")[~near], cl[~near], 1e-6, "closed form for a point source behind")
    if c["mu_s"] < 0.9:
        # exact integral: l from r, angles by the triangle; substitution over the angle of the photons to the path
        f = np.linspace(0, 1, 4001)
        th0 = np.arccos(c["mu_s"])
        t = th0 * f  # angle between photon and gamma ray, from th0 at the start to 0 at infinity; x = r sin th0 / sin t
        b = r * np.sin(th0)
        om = 2 * np.sin(t / 2) ** 2
        for i, e in enumerate(e1):
            y = om * ref.sigma_gg(c["eps"] * e * om / 2) * c["L"] / (4 * np.pi * ref.C * c["eps"] * ref.MEC2) / b
            exact = ref.trapz(y, t)
            # du / x^2 = dt / b
            if exact > 1e-30 and c["eps"] * e * om[-1] / 2 > 3:
                close(want[i], exact, 0.1, "model of the path against the exact integral")


def fn_dt(c, ctx):
    """ring torus, gamma rays leaving at any angle: vs 3-D geometry of ring and path; non-trivial: above threshold"""
    eps = 2.7 * ref.KB * c["T"] / ref.MEC2
    e1, nu = gammas(c, eps)
    R = c["R"]
    a = Absorption(RingDustTorus(c["L"] * LU, c["xi"], c["T"] * u.K, (R * u.cm).to("pc")), c["R"] * c["rr"] * u.cm, z=c["z"], mu_s=c["mu_s"])
    nl, nphi, _ = setup(c, a)
    r, s, w = path(c, 2 * nl)
    ph = np.linspace(0, 2 * np.pi, nphi)
    P = R * np.array([np.cos(ph), np.sin(ph), 0 * ph])
    d = np.array([s, 0, c["mu_s"]])

    def dirs(x):
        omc, x2 = photons(P, np.array([x * s, 0, r + x * c["mu_s"]]), d)
        return omc, eps, c["xi"] * c["L"] / (4 * np.pi * ref.C * x2) * ref.tw(ph) / (2 * np.pi) / (eps * ref.MEC2)

    want, slack = ref.tau_path(e1, w, dirs)
    compare(ctx, a, nu, c, want, slack, 1e-5, "optical depth on the torus at an angle")


def fn_blr(c, ctx):
    """BLR shell, gamma rays leaving at any angle from inside or outside: vs 3-D geometry of shell and path; non-trivial: above threshold"""
    eps = line_eps(c["line"])
    e1, nu = gammas(c, eps)
    R = c["R"]
    c = dict(c, default=False)
    if c["hit"]:
        f, delta = c["hit"]
        n = 2 * c["l_size"]
        t = np.logspace(-5, 5, n)[int(f * (n - 1))]
        c["rr"] = (1 + delta) / np.sqrt(1 + t**2 + 2 * t * c["mu_s"])
        ctx.label("on the shell")
    a = Absorption(SphericalShellBLR(c["L"] * LU, c["xi"], c["line"], build.length(R)), c["R"] * c["rr"] * u.cm, z=c["z"], mu_s=c["mu_s"])
    nl, nphi, nmu = setup(c, a)
    r, s, w = path(c, 2 * nl)
    ms = c["mu_s"]
    dist = np.abs(np.sqrt(r**2 + w**2 + 2 * w * r * ms) / R - 1)
    if np.any((dist > 0.9e-4) & (dist < 1.1e-4)):
        return
    w = np.sort(np.where(dist < 1e-4, w + 1e-4 * R, w))  # documented: points on the shell are moved away from it
    ctx.label("inside" if r < R else "outside")
    mu, ph = np.linspace(-1, 1, nmu), np.linspace(0, 2 * np.pi, nphi)
    M, F = [q.ravel() for q in np.meshgrid(mu, ph, indexing="ij")]
    S = np.sqrt(1 - M**2)
    P = R * np.array([S * np.cos(F), S * np.sin(F), M])
    wt = (ref.tw(mu)[:, None] / 2 * ref.tw(ph)[None, :] / (2 * np.pi)).ravel()
    d = np.array([s, 0, ms])
    far = [np.inf]

    def dirs(x):
        omc, x2 = photons(P, np.array([x * s, 0, r + x * ms]), d)
        far[0] = min(far[0], np.sqrt(x2.min()) / R)
        return omc, eps, c["xi"] * c["L"] / (4 * np.pi * ref.C * x2) * wt / (eps * ref.MEC2)

    want, slack = ref.tau_path(e1, w, dirs)
    # the distance to the shell elements comes from the cosine rule: digits are lost next to an element
    tol = 1e-5 + 2e-11 / far[0] ** 2
    try:
        compare(ctx, a, nu, c, want, slack, tol, "optical depth on the BLR at an angle")
    except Violation:
        if far[0] > 1e-3:
            raise
        # what the rounding of the height and of the direction changes
        base, r0 = val(a.tau(nu), ""), a.r
        noise = 0.0
        for k in (-3e-15, -1e-15, 1e-15, 3e-15):
            for j in (-1e-15, 0.0, 1e-15):
                a.r, a.mu_s = r0 * (1 + k), ms * (1 + j)
                noise = np.maximum(noise, np.abs(val(a.tau(nu), "") - base))
        a.r, a.mu_s = r0, ms
        compare(ctx, a, nu, c, want, slack + 3 * noise, tol, "optical depth on the BLR at an angle")


def fn_axis(c, ctx):
    """angle going to zero: the optical depth at an angle tends to that along the axis (10 % with refined grids); linear in luminosity; non-trivial: absorption"""
    R = c["R"]
    r = R * c["rr"]
    kind = c["kind"]
    ctx.label(kind)
    if kind == "dt":
        t, t7 = [RingDustTorus(L * LU, c["xi"], c["T"] * u.K, R * u.cm) for L in (c["L"], 7 * c["L"])]
        eps = 2.7 * ref.KB * c["T"] / ref.MEC2
    else:
        t, t7 = [SphericalShellBLR(L * LU, c["xi"], c["line"], build.length(R)) for L in (c["L"], 7 * c["L"])]
        eps = line_eps(c["line"])
    # far above the threshold met on the axis
    th = 1 / (1 - np.cos(np.arctan(1 / c["rr"])))
    e1, nu = gammas(c, eps)
    nu, e1 = nu * th, e1 * th
    n = 240
    out = []
    for ms, tt in ((1, t), (1 - 1e-9, t), (1 - 1e-9, t7)):
        a = Absorption(tt, r * u.cm, z=c["z"], mu_s=ms)
        a.set_l(n if ms == 1 else n // 2)
        a.set_phi(8)
        a.set_mu(60)
        out.append(val(a.tau(nu), ""))
    ok = e1 * eps / th > 3
    ctx.nontrivial(np.any(out[0][ok] > 0))
    close(out[2], 7 * out[1], 1e-9, "linear in luminosity")
    ensure(np.all(np.isfinite(out[1])), "optical depth for a tiny angle is not finite: %s" % out[1])
    a = Absorption(t, r * u.cm, z=c["z"], mu_s=np.cos(np.radians(c["deg"])))
    a.set_phi(8)
    a.set_mu(30)
    tau = val(a.tau(nu), "")
    ensure(np.all(np.isfinite(tau)) and np.all(tau >= 0), "optical depth at %g deg is not a finite positive number: %s" % (c["deg"], tau))
    if kind == "blr" and c["rr"] < 1.5:
        # crossing the shell: the integrand is singular there, the two grids sample it differently
        return
    close(out[1][ok], out[0][ok], 0.12, "optical depth for a tiny angle vs along the axis (%s)" % kind)


def strat_axis():
    return st.tuples(strat(), gen.pick("dt", "blr"), gen.logu(1e-5, 30)).map(lambda t: dict(t[0], kind=t[1], deg=t[2]))


SUBS = [
    Sub("point_source", fn_ps, strat, quick=600, thorough=15000, shards=2),
    Sub("torus", fn_dt, strat, quick=500, thorough=15000, shards=3),
    Sub("blr", fn_blr, strat, quick=400, thorough=10000, shards=4),
    Sub("axis_limit", fn_axis, strat_axis, quick=200, thorough=5000, shards=4),
]
