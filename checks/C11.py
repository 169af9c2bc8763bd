"""Synchrotron self-absorption"""
from importlib import import_module

import numpy as np
import astropy.units as u
from hypothesis import strategies as st

from agnpy.synchrotron import Synchrotron
from vlib import build, gen, ref
from vlib.cmp import close, ensure, val
from vlib.runner import Sub

SYNCH = import_module("agnpy.synchrotron.synchrotron")


def strat():
    return st.fixed_dictionaries(dict(b=gen.blob(n_e=gen.dist(k=gen.logu(1e-2, 1e12))), nu=gen.freqs(1e7, 1e17), integ=gen.pick("trapz", "loglog", "trapz")))


def fn(c, ctx):
    """opacity and self-absorbed SED vs the model; absorbed <= unabsorbed, equal when thin, tau linear in R_b and k; non-trivial: 1e-3 < tau somewhere"""
    b = c["b"]
    blob = build.blob(b)
    d = b["n_e"]
    nu = np.array(c["nu"])
    size = b["gamma_e_size"]
    g = ref.grid(d, size)
    if "gamma_b" in d and np.any(np.abs(g / d["gamma_b"] - 1) < 1e-9):
        return
    dL = val(blob.d_L, "cm")
    S = ref.ssa_integrand(d, g)
    # the log-log rule is defined where the integrand has one sign (falling distributions)
    integ = "trapz" if np.any(S > 0) else c["integ"]
    ctx.label(integ)
    f = ref.INTEG[integ]
    tau = ref.ssa_tau(nu, b["z"], b["delta_D"], b["B"], b["R_b"], S, g, f)
    ctx.nontrivial(np.any(tau > 1e-3))
    if np.any(tau > 1):
        ctx.label("optically thick")
    # magnitude of the terms before cancellation (rising parts of the distribution are negative absorption)
    mag = ref.ssa_tau(nu, b["z"], b["delta_D"], b["B"], b["R_b"], -np.abs(S), g, ref.trapz)
    args = (b["z"], blob.d_L, b["delta_D"], b["B"] * u.G, b["R_b"] * u.cm, blob.n_e, *blob.n_e.parameters)
    pyf = build.INTEG[integ]
    got = np.asarray(Synchrotron.evaluate_tau_ssa(nu * u.Hz, *args, gamma=blob.gamma_e, integrator=pyf), float)
    close(got, tau, 3e-6, "SSA opacity", atol=mag * 1e-9 + 1e-250)
    n = ref.n_of(d, g)
    plain = ref.synch_sed(nu, b["z"], dL, b["delta_D"], b["B"], b["R_b"], n, g, integ=f)
    att = np.where(tau < 1e-3, 1.0, ref.sphere_attenuation(np.where(tau < 1e-3, 1.0, tau)))
    sa = val(Synchrotron(blob, ssa=True, integrator=pyf).sed_flux(nu * u.Hz), "erg cm-2 s-1")
    close(sa, plain * att, 5e-4, "self-absorbed SED", floor=1e-14, atol=1e-250)
    far = np.abs(tau / 1e-3 - 1) > 1e-3
    close(sa[far], (plain * att)[far], 1e-5, "self-absorbed SED", floor=1e-13, atol=1e-250)
    un = val(Synchrotron(blob, ssa=False, integrator=pyf).sed_flux(nu * u.Hz), "erg cm-2 s-1")
    pos = tau >= 0
    ensure(np.all(sa[pos] <= un[pos] * (1 + 1e-9)), "self-absorption increases the SED")
    thin = (tau >= 0) & (tau < 1e-4)
    close(sa[thin], un[thin], 1e-3, "optically thin limit", atol=1e-250)
    # linear in R_b
    b2 = build.blob(dict(b, R_b=3 * b["R_b"]))
    got3 = np.asarray(Synchrotron.evaluate_tau_ssa(nu * u.Hz, b["z"], b2.d_L, b["delta_D"], b["B"] * u.G, b2.R_b, b2.n_e, *b2.n_e.parameters, gamma=b2.gamma_e, integrator=pyf), float)
    close(got3, 3 * got, 1e-6, "opacity with three times the radius", atol=mag * 1e-8 + 1e-250)


def fn_att(c, ctx):
    """escape factor of a homogeneous sphere: in (0, 1], decreasing, 1 - 3 tau/8 when thin, 3/(2 tau) when thick, equal to the direct average over the sphere; non-trivial: tau above the thin threshold"""
    from scipy.integrate import quad

    tau_to_attenuation = getattr(SYNCH, "tau_to_attenuation", None)
    if tau_to_attenuation is None:  # undocumented helper: its effect shows in the absorbed spectra of C09 and C13 as well
        ctx.label("helper absent")
        return
    t = np.array(sorted(c["tau"]))
    a = np.asarray(tau_to_attenuation(t), float)
    ctx.nontrivial(np.any(t > 1e-3))
    ensure(np.all((a > 0) & (a <= 1 + 1e-9)), "attenuation outside (0, 1]: %s" % a)
    ensure(np.all(np.diff(a) <= 4e-4 * a[:-1]), "attenuation not decreasing with tau")
    close(a, ref.sphere_attenuation(t), 4e-4, "escape factor")
    big = t > 2e-3
    close(a[big], ref.sphere_attenuation(t[big]), 1e-6, "escape factor")
    # average of (1-exp(-l))/l weighted over chords of a sphere with diameter opacity tau:  3u/tau
    for x, v in zip(t[big][:2], a[big][:2]):
        # surface flux / optically thin flux = 3/tau * int_0^1 mu (1 - exp(-tau mu)) dmu ... (D&M 7.122)
        I = quad(lambda m: m * -np.expm1(-x * m), 0, 1, limit=200)[0]
        close(v, 3 / x * I, 1e-5, "escape factor vs surface integral")


SUBS = [
    Sub("opacity", fn, strat, quick=500, thorough=20000, shards=6),
    Sub("escape_factor", fn_att, lambda: st.fixed_dictionaries(dict(tau=st.lists(gen.logu(1e-8, 1e6), min_size=1, max_size=12))), quick=300, thorough=10000, shards=2),
]
