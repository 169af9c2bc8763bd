"""every radiative process and thermal emitter of the package, built from one case"""
import astropy.units as u

from agnpy.compton import ExternalCompton, SynchrotronSelfCompton
from agnpy.synchrotron import ProtonSynchrotron, Synchrotron
from agnpy.targets import CMB, PointSourceBehindJet, RingDustTorus, SphericalShellBLR, SSDisk
from hypothesis import strategies as st

from . import build, gen

NAMES = ["synch", "synch_ssa", "psynch", "ssc", "ssc_ssa", "ec_cmb", "ec_ps", "ec_dt", "ec_blr", "ec_disk"]
LU = u.Unit("erg s-1")


def targets():
    """target parameters, distance r in units of the size of the target"""
    return st.fixed_dictionaries(dict(L=gen.logu(1e43, 1e48), xi=gen.lin(0.01, 1), T=gen.lin(200, 2000), line=gen.pick("Lyalpha", "Hbeta", "CIV", "HeI"),
                                      R=gen.logu(1e16, 1e18), r=gen.logu(1e16, 1e19), zc=gen.lin(0, 2), M=gen.logu(1e7, 1e10), eta=gen.lin(0.05, 0.3),
                                      Rin=gen.lin(3, 10), Rratio=gen.logu(10, 300), eps=gen.logu(1e-8, 1e-3)))


def target(name, t):
    if name == "ec_cmb":
        return CMB(t["zc"])
    if name == "ec_ps":
        return PointSourceBehindJet(t["L"] * LU, t["eps"])
    if name == "ec_dt":
        return RingDustTorus(t["L"] * LU, t["xi"], t["T"] * u.K, 10 * t["R"] * u.cm)
    if name == "ec_blr":
        return SphericalShellBLR(t["L"] * LU, t["xi"], t["line"], t["R"] * u.cm)
    return SSDisk(t["M"] * u.M_sun, t["L"] * LU, t["eta"], t["Rin"], t["Rin"] * t["Rratio"], R_g_units=True)


def process(name, blob, t, integrator=None, mu=11, phi=7):
    kw = {} if integrator is None else dict(integrator=build.INTEG[integrator])
    if name.startswith("synch"):
        return Synchrotron(blob, ssa=name.endswith("ssa"), **kw)
    if name == "psynch":
        return ProtonSynchrotron(blob, **kw)
    if name.startswith("ssc"):
        return SynchrotronSelfCompton(blob, ssa=name.endswith("ssa"), **kw)
    ec = ExternalCompton(blob, target(name, t), r=t["r"] * u.cm, **kw)
    ec.set_mu(mu)
    ec.set_phi(phi)
    return ec


def band(name, t):
    """frequencies where the process usually emits (log10 Hz)"""
    if name.startswith("synch"):
        return 9, 24
    if name == "psynch":
        return 9, 28
    return 13, 28
