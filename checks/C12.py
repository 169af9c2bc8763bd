"""Proton synchrotron SED"""
import numpy as np
import astropy.units as u
from astropy.constants import m_p
from hypothesis import strategies as st

from agnpy.synchrotron import ProtonSynchrotron, Synchrotron
from vlib import build, gen, ref
from vlib.cmp import close, ensure, val
from vlib.runner import Sub


def strat():
    return st.fixed_dictionaries(dict(b=gen.blob(n_p=gen.dist(mass="p", gmin=(1.0, 1e6), gmax_cap=1e12)), nu=gen.freqs(1e6, 1e32), integ=gen.pick("trapz", "loglog")))


def fn(c, ctx):
    """proton SED vs the model with the proton mass on the proton grid; relation to the electron SED of the same distribution: nu -> nu (m_e/m_p)^3 with the same emissivity per frequency up to mass factors; non-trivial: non-zero SED"""
    b, d = c["b"], c["b"]["n_p"]
    blob = build.blob(b)
    nu = np.array(c["nu"])
    g = ref.grid(d, b["gamma_p_size"])
    dL = val(blob.d_L, "cm")
    n = ref.n_of(d, g)
    want = ref.synch_sed(nu, b["z"], dL, b["delta_D"], b["B"], b["R_b"], n, g, mass=ref.MP, integ=ref.INTEG[c["integ"]])
    ctx.nontrivial(want.max() > 1e-70)
    ps = ProtonSynchrotron(blob, integrator=build.INTEG[c["integ"]])
    got = val(ps.sed_flux(nu * u.Hz), "erg cm-2 s-1", "SED")
    close(got, want, 2e-6, "proton synchrotron SED", floor=1e-14, atol=1e-250)
    close(val(ps.sed_luminosity(nu * u.Hz), "erg s-1"), 4 * np.pi * dL**2 * want, 3e-6, "proton SED luminosity", floor=1e-14, atol=1e-190)
    # electrons with the same distribution radiate the same x at nu_e = nu (m_p/m_e)^3 / ... : nu_c ~ 1/m (in nu, gamma fixed: nu ~ B gamma^2/m)
    be = build.blob(dict(b, n_e=dict(d, mass="e"), gamma_e_size=b["gamma_p_size"]))
    nue = nu * (ref.MP / ref.ME)
    e_sed = val(Synchrotron(be, integrator=build.INTEG[c["integ"]]).sed_flux(nue * u.Hz), "erg cm-2 s-1")
    # P(nu) = sqrt3 e^3 B/(m c^2) R(x): nu P(nu) scales as m^-2 at fixed x
    close(got, e_sed * (ref.ME / ref.MP) ** 2, 1e-5, "proton SED vs electron SED at the same x", floor=1e-13, atol=1e-250)


SUBS = [Sub("reference", fn, strat, quick=600, thorough=20000, shards=6)]
