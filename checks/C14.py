"""Compton kernels and Klein-Nishina losses"""
import numpy as np
import astropy.units as u
from hypothesis import strategies as st
from scipy.integrate import quad

from agnpy.compton import SynchrotronSelfCompton
from agnpy.compton.kernels import F_c, compton_kernel, get_gamma_min, isotropic_kernel
from vlib import build, gen, ref
from vlib.cmp import close, ensure, val
from vlib.runner import Sub


def sigma_kn(x):
    """total Klein-Nishina cross section in units of sigma_T, photon energy x in the electron rest frame"""
    if x < 1e-3:
        return 1 - 2 * x + 5.2 * x**2
    a = (1 + x) / x**3 * (2 * x * (1 + x) / (1 + 2 * x) - np.log(1 + 2 * x))
    return 0.75 * (a + np.log(1 + 2 * x) / (2 * x) - (1 + 3 * x) / (1 + 2 * x) ** 2)


def strat_k():
    return st.fixed_dictionaries(
        dict(g=gen.logu(2, 1e9), eps=gen.logu(1e-14, 1e3), frac=st.lists(gen.lin(-0.3, 1.3), min_size=1, max_size=8), mu_s=gen.lin(-1, 1), mu=gen.lin(-1, 1), phi=gen.lin(0, 6.283))
    )


def fn_kernels(c, ctx):
    """values of both kernels at scattered energies inside and outside the kinematic range: closed forms inside, exactly zero above the kinematic maximum (and below the minimum for the isotropic one), threshold Lorentz factor solves the kinematics; non-trivial: an energy inside"""
    g, eps = c["g"], c["eps"]
    cosp = c["mu"] * c["mu_s"] + np.sqrt(1 - c["mu"] ** 2) * np.sqrt(1 - c["mu_s"] ** 2) * np.cos(c["phi"])
    if 1 - cosp < 1e-6:
        return
    # isotropic
    emax = g * 4 * g * eps / (1 + 4 * g * eps)
    emin = eps / (1 + eps / g)
    f = np.array(c["frac"])
    es = emin * (emax / emin) ** f if emax > emin else np.array([emax])
    es = es[(np.abs(es / emax - 1) > 1e-8) & (np.abs(es / emin - 1) > 1e-8) & (es < g * (1 - 1e-9))]
    if es.size and 4 * g * eps < 1e10:
        got = np.asarray(isotropic_kernel(np.full(es.shape, g), np.full(es.shape, eps), es), float)
        want = ref.jones_kernel(np.full(es.shape, g), eps, es)
        inside = (es > emin) & (es < emax)
        ctx.nontrivial(inside.any())
        ensure(np.all(got[~inside] == 0), "isotropic kernel outside the kinematic range: %s" % got[~inside])
        close(got, want, 1e-6, "isotropic kernel", atol=1e-9)
        ensure(np.all(got[inside] >= -1e-9), "negative isotropic kernel")
        q = np.array([0.01, 0.3, 0.9, 1.0])
        close(np.asarray(F_c(q, 4 * g * eps), float), ref.F_c(q, 4 * g * eps), 1e-9, "F_c", atol=1e-12)
    # head-on
    eb = g * eps * (1 - cosp)
    emax = g * 2 * eb / (1 + 2 * eb)
    es = emax * 10.0 ** (f - 1)
    es = es[(np.abs(es / emax - 1) > 1e-6) & (es < g * (1 - 1e-6))]
    if es.size:
        got = np.asarray(compton_kernel(np.full(es.shape, g), es, eps, c["mu_s"], c["mu"], c["phi"]), float)
        want = ref.headon_kernel(np.full(es.shape, g), es, eps, cosp)
        inside = es < emax
        ctx.nontrivial(inside.any())
        ensure(np.all(got[~inside] == 0), "head-on kernel above the kinematic maximum: %s" % got[~inside])
        ensure(np.all(want[inside] != 0), "model")
        close(got, want, 1e-5, "head-on kernel", atol=1e-7)
        gm = np.asarray(get_gamma_min(es, eps, c["mu_s"], c["mu"], c["phi"]), float)
        ebm = gm * eps * (1 - cosp)
        close(gm * 2 * ebm / (1 + 2 * ebm), es, 1e-6, "maximum energy scattered at the threshold Lorentz factor")


def strat_n():
    return st.fixed_dictionaries(dict(g=gen.logu(300, 1e6), b=gen.logu(1e-5, 1e4), cosp=gen.lin(-1, 0.9)))


def fn_norm(c, ctx):
    """integrated over the scattered energies both kernels give the Klein-Nishina total scattering rate (2 %); non-trivial: all"""
    g = c["g"]
    ctx.nontrivial()
    eps = c["b"] / g
    # head-on: dsigma/d es = 3/(8 g eb) sigma_T K
    eb = eps * g * (1 - c["cosp"])
    emax = g * 2 * eb / (1 + 2 * eb)
    s = 1 - np.linspace(1e-12, 1 - 1e-9, 20001)  # fine near the maximum
    es = emax * s[::-1]
    K = np.asarray(compton_kernel(np.full(es.shape, g), es, eps, 1.0, c["cosp"], 0.0), float)
    tot = 3 / (8 * g * eb) * ref.trapz(K, es)
    tail = 0.0
    # the high-energy end of the spectrum in the deep KN regime piles up at gamma
    if eb > 3:
        w = np.exp(np.linspace(np.log(1 / (1 + 2 * eb)), 0, 20001))  # 1 - es/g
        es = (g * (1 - w))[::-1]
        es = es[es > 0]
        K = np.asarray(compton_kernel(np.full(es.shape, g), es, eps, 1.0, c["cosp"], 0.0), float)
        tot = 3 / (8 * g * eb) * ref.trapz(K, es) + tail
    close(tot, sigma_kn(eb), 0.02, "head-on kernel integrated over scattered energy / sigma_T")
    # isotropic: rate = 3/(4 g^2 eps) int F_c d es
    q = np.exp(np.linspace(np.log(1 / (4 * g**2)), 0, 20001))
    ge = 4 * g * eps
    e1 = ge * q / (1 + ge * q)
    es = g * e1
    es = es[1:-1]
    K = np.asarray(isotropic_kernel(np.full(es.shape, g), np.full(es.shape, eps), es), float)
    rate = 3 / (4 * g**2 * eps) * ref.trapz(K, es)
    want = quad(lambda m: 0.5 * (1 - m) * sigma_kn(g * eps * (1 - m)), -1, 1)[0]
    close(rate, want, 0.02, "isotropic kernel integrated over scattered energy / sigma_T c")


def strat_l():
    return st.fixed_dictionaries(dict(b=gen.blob(n_e=gen.dist(decades=(1, 6), gmin=(5, 1e4))), g=st.lists(gen.logu(1.5, 1e9), min_size=1, max_size=8)))


def fn_loss(c, ctx):
    """Klein-Nishina energy loss rate vs the model, never above the Thomson rate on the same photons, equal to it for slow electrons; non-trivial: positive losses"""
    b, d = c["b"], c["b"]["n_e"]
    blob = build.blob(b)
    for x in (d["gamma_min"], d["gamma_max"]):
        if np.any(np.abs(ref.GAMMA_DEFAULT / x - 1) < 1e-9):
            return
    g = np.array(sorted(c["g"]))
    dL = val(blob.d_L, "cm")
    want = ref.kn_loss(g, b["z"], dL, b["delta_D"], b["B"], b["R_b"], lambda x: ref.n_of(d, x))
    ctx.nontrivial(want.max() > 0)
    ssc = SynchrotronSelfCompton(blob)
    got = val(ssc.electron_energy_loss_rate(g), "erg s-1")
    close(got, want, 1e-5, "KN energy loss rate", floor=1e-13, atol=1e-200)
    n2 = ref.trapz(ref.n_of(d, ref.grid(d, b["gamma_e_size"])) * ref.grid(d, b["gamma_e_size"]) ** 2, ref.grid(d, b["gamma_e_size"]))
    U = ref.ST * b["B"] ** 2 / (8 * np.pi) * b["R_b"] * n2
    close(val(ssc.electron_energy_loss_rate_thomson(g), "erg s-1"), 4 / 3 * ref.ST * ref.C * U * g**2, 1e-7, "Thomson loss rate")
    per = got / g**2
    ensure(np.all(np.diff(per) <= 1e-9 * per[:-1]), "loss rate / gamma^2 increases with gamma (Klein-Nishina suppression only reduces it)")


SUBS = [
    Sub("kernels", fn_kernels, strat_k, quick=1000, thorough=40000, shards=3),
    Sub("total_rate", fn_norm, strat_n, quick=150, thorough=5000, shards=3),
    Sub("loss_rate", fn_loss, strat_l, quick=300, thorough=10000, shards=4),
]
