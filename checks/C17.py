"""External Compton limits: far away every extended target is a point source behind the jet, at the centre of a shell the
field is isotropic"""
import numpy as np
import astropy.units as u
from hypothesis import strategies as st

from agnpy.compton import ExternalCompton
from agnpy.targets import CMB, PointSourceBehindJet, RingDustTorus, SphericalShellBLR, SSDisk
from vlib import build, gen, ref
from vlib.cmp import close, ensure, val
from vlib.runner import Sub
from checks.C15 import common, mu_s, nus
from checks.C16 import LINES, line_eps

LU = u.Unit("erg s-1")


def near_threshold(b, nu, eps, ms, tol=3e-5):
    """a grid point of the Lorentz factors lies so close to the kinematic threshold that a small change of angle moves it across"""
    g = 10 ** np.linspace(1, 9, b["gamma_e_size"])
    es = ref.H * np.asarray(nu) * (1 + b["z"]) / ref.MEC2
    gmin = es / 2 * (1 + np.sqrt(1 + 2 / (eps * es * (1 - ms))))
    return np.array([np.any(np.abs(g / x - 1) < tol) for x in gmin])


def fn_far(c, ctx):
    """torus and BLR at 1e6..1e9 times their radius vs a point source of the same reprocessed luminosity and photon energy; non-trivial: non-zero SED"""
    b = c["b"]
    ms = mu_s(b)
    if 1 - ms < 1e-3 or ms < -0.999:  # the angle subtended by the target must be small compared to the viewing angle
        return
    blob = build.blob(b)
    L = c["L"] * LU
    R = c["R"] * u.cm
    r = R * c["rr"]
    if c["what"] == "dt":
        t = RingDustTorus(L, c["xi"], c["T"] * u.K, R)
        eps = 2.7 * ref.KB * c["T"] / ref.MEC2
    else:
        t = SphericalShellBLR(L, c["xi"], c["line"], R)
        eps = line_eps(c["line"])
    nu = nus(c, eps, 1 - ms)
    nu = nu[~near_threshold(b, nu, eps, ms)]
    if nu.size == 0:
        return
    ps = PointSourceBehindJet(c["xi"] * L, eps)
    integ = build.INTEG[c["integ"]]
    e1, e2 = ExternalCompton(blob, t, r=r, integrator=integ), ExternalCompton(blob, ps, r=r, integrator=integ)
    e1.set_mu(40)
    e1.set_phi(16)
    a, p = val(e1.sed_flux(nu * u.Hz), "erg cm-2 s-1"), val(e2.sed_flux(nu * u.Hz), "erg cm-2 s-1")
    ctx.nontrivial(p.max() > 1e-100)
    ctx.label(c["what"])
    close(a, p, 1e-3, "%s far away vs point source" % t.name, floor=1e-9, atol=1e-250)


def fn_centre(c, ctx):
    """blob at the centre of the BLR shell: the SED is that of an isotropic monochromatic field of energy density xi L/(4 pi c R^2), whatever the viewing angle; non-trivial: non-zero SED"""
    b = c["b"]
    ms = mu_s(b)
    if ms < -0.999:
        return
    blob = build.blob(b)
    eps = line_eps(c["line"])
    nu = nus(c, eps)
    R = c["R"]
    t = SphericalShellBLR(c["L"] * LU, c["xi"], c["line"], build.length(R))
    iso = CMB(0.0)
    iso.u_0 = c["xi"] * c["L"] / (4 * np.pi * ref.C * R**2) * u.Unit("erg cm-3")
    iso.epsilon_0 = eps
    integ = build.INTEG[c["integ"]]
    e1, e2 = ExternalCompton(blob, t, r=1e-8 * R * u.cm, integrator=integ), ExternalCompton(blob, iso, r=1 * u.cm, integrator=integ)
    for e in (e1, e2):
        e.set_mu(2 * c["nmu"])
        e.set_phi(2 * c["nphi"] + 1)
    a, p = val(e1.sed_flux(nu * u.Hz), "erg cm-2 s-1"), val(e2.sed_flux(nu * u.Hz), "erg cm-2 s-1")
    ctx.nontrivial(p.max() > 1e-100)
    # angles differ by 1e-8 of the radius: thresholds of single directions may move across a grid point
    close(a, p, 5e-3, "BLR seen from its centre vs isotropic field", floor=1e-6, atol=1e-250)


def fn_mono(c, ctx):
    """energy densities of ring, shell and disk at the centre, at one radius and far away, galaxy and blob frames, vs closed forms; all cases non-trivial"""
    b = c["b"]
    L, R = c["L"], c["R"]
    t = RingDustTorus(L * LU, c["xi"], c["T"] * u.K, build.length(R))
    rr = np.array([1e-6, 1.0, 1e6]) * R
    got = val(t.u(rr * u.cm), "erg cm-3")
    u0 = c["xi"] * L / (4 * np.pi * ref.C * R**2)
    ctx.nontrivial()
    close(got, u0 * np.array([1.0, 0.5, 1e-12]), 1e-6, "torus energy density at the centre, at r = R and far away")
    s = SphericalShellBLR(L * LU, c["xi"], c["line"], build.length(R))
    got = val(s.u(np.array([1e-6, 1e6]) * R * u.cm), "erg cm-3")
    close(got, u0 * np.array([1.0, 1e-12]), 1e-4, "BLR energy density at the centre and far away")
    blob = build.blob(b)
    G, Bt = b["Gamma"], np.sqrt(1 - 1 / b["Gamma"] ** 2)
    far = 1e7 * R
    want = c["xi"] * L / (4 * np.pi * ref.C * far**2) / (G * (1 + Bt)) ** 2
    for q in (t, s, PointSourceBehindJet(c["xi"] * L * LU, 1e-5)):
        close(np.ravel(val(q.u(np.array([far]) * u.cm, blob=blob), "erg cm-3")), np.array([want]), 1e-4 , "far %s in the frame of the blob" % q.name)
    close(np.ravel(val(t.u(np.array([1e-9 * R]) * u.cm, blob=blob), "erg cm-3")), np.array([u0 * G**2]), 1e-6, "torus at the centre in the frame of the blob")
    # disk: dissipation integrated over the surface seen from far away
    M = c["M"] * ref.MSUN
    Rg = ref.G * M / ref.C**2
    Ri, Ro = c["Rin"], c["Rin"] * 3.0
    d = SSDisk(c["M"] * u.M_sun, L * LU, c["eta"], Ri, Ro, R_g_units=True)
    far = 300 * Ro * Rg
    mdot = L / (c["eta"] * ref.C**2)
    x = np.linspace(Ri, Ro, 20001)
    I = ref.trapz((1 - np.sqrt(Ri / x)) / x**2, x) / Rg
    want = 3 * ref.G * M * mdot / (8 * np.pi * ref.C * far**2) * I
    close(np.ravel(val(d.u(np.array([far]) * u.cm), "erg cm-3")), np.array([want]), 0.01, "far disk: energy density from the dissipation rate")


def strat_far():
    return st.tuples(strat(), gen.blob(n_e=gen.dist(decades=(1.5, 6), gmin=(1, 1e4)), sizes=(40, 120), theta=gen.lin(3, 60))).map(lambda t: dict(t[0], b=t[1]))


def strat():
    return st.fixed_dictionaries(dict(common(), what=gen.pick("dt", "blr"), L=gen.logu(1e43, 1e48), xi=gen.lin(0.01, 1), T=gen.lin(200, 2000),
                                      line=st.sampled_from(LINES), R=gen.logu(1e15, 1e19), rr=gen.logu(1e6, 1e9), nmu=st.integers(4, 20), nphi=st.integers(3, 8),
                                      M=gen.logu(1e6, 1e10), eta=gen.lin(0.05, 0.4), Rin=gen.lin(2, 20)))


SUBS = [
    Sub("far_limit", fn_far, strat_far, quick=800, thorough=12000, shards=8),
    Sub("centre_of_shell", fn_centre, strat, quick=600, thorough=10000, shards=8),
    Sub("energy_density_limits", fn_mono, strat, quick=400, thorough=8000, shards=4),
]
