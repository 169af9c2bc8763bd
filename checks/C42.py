"""Physical dimensions are checked: quantities of another dimension never turn into a result"""
import numpy as np
import astropy.units as u
from astropy.constants import m_n
from hypothesis import strategies as st

import agnpy.spectra as S
from agnpy.absorption import EBL, Absorption
from agnpy.compton import ExternalCompton, SynchrotronSelfCompton
from agnpy.constraints import SpectralConstraints
from agnpy.emission_regions import Blob
from agnpy.spectra import InterpolatedDistribution
from agnpy.synchrotron import ProtonSynchrotron, Synchrotron
from agnpy.targets import CMB, PointSourceBehindJet, RingDustTorus, SphericalShellBLR, SSDisk
from agnpy.utils.conversion import B_to_cgs, nu_to_epsilon_prime, to_R_g_units
from vlib import build, gen, ref
from vlib.cmp import close, ensure
from vlib.runner import Sub, Violation
from checks.C38 import NAMES, Pool, Q, flat, strat as strat38

LU = u.Unit("erg s-1")
# units offered in place of the right one; "" a dimensionless quantity, None a bare number
UNITS = ["s", "cm", "g", "K", "erg", "Hz", "eV", "T", "erg s-1", "cm-3", "cm2", "", None]
E = {}


def entry(name, unit, value, also=()):
    """a use of an argument; `also`: other units that are accepted on purpose"""
    def deco(f):
        E[name] = (unit, value, tuple(also), f)
        return f
    return deco


# frequencies
for _n, _f in {
    "synchrotron": lambda p, q: p.syn.sed_flux(q),
    "absorbed synchrotron": lambda p, q: p.syns.sed_flux(q),
    "synchrotron luminosity": lambda p, q: p.syn.sed_luminosity(q),
    "delta approximation": lambda p, q: p.syn.sed_flux_delta_approx(q),
    "proton synchrotron": lambda p, q: p.psyn.sed_flux(q),
    "ssc": lambda p, q: p.ssc.sed_flux(q),
    "ec cmb": lambda p, q: p.ec["cmb"].sed_flux(q),
    "ec ps": lambda p, q: p.ec["ps"].sed_flux(q),
    "ec dt": lambda p, q: p.ec["dt"].sed_flux(q),
    "ec blr": lambda p, q: p.ec["blr"].sed_flux(q),
    "ec disk": lambda p, q: p.ec["disk"].sed_flux(q),
    "tau dt": lambda p, q: p.ab["dt"].tau(q),
    "tau blr": lambda p, q: p.ab["blr"].tau(q),
    "tau disk": lambda p, q: p.ab["disk"].tau(q),
    "tau dt at angle": lambda p, q: p.abs_mu["dt"].tau(q),
    "tau blr at angle": lambda p, q: p.abs_mu["blr"].tau(q),
    "absorption dt": lambda p, q: p.ab["dt"].absorption(q),
    "tau on synchrotron": lambda p, q: p.ab["dt"].tau_on_synchrotron(p.blob, q[:1], nu_s_size=10),
    "disk thermal": lambda p, q: p.targets["disk"].sed_flux(q, 0.3),
    "torus thermal": lambda p, q: p.targets["dt"].sed_flux(q, 0.3),
    "epsilon": lambda p, q: nu_to_epsilon_prime(q, 0.3, 4.0),
}.items():
    # a dimensionless quantity is an energy in units of the rest mass
    E["nu of " + _n] = ("Hz", np.array([1e12, 1e20]), ("",), _f)
E["nu of ebl"] = ("Hz", np.array([1e25, 1e26]), ("erg", "eV", "cm"), lambda p, q: p.ebl.absorption(q, 0.3))
# distances along the jet
for _k in ("dt", "blr", "disk", "ps"):
    E["r of u " + _k] = ("cm", np.array([3e17]), (), lambda p, q, k=_k: p.targets[k].u(q))
    E["r of comoving u " + _k] = ("cm", np.array([3e17]), (), lambda p, q, k=_k: p.targets[k].u(q, p.blob))
    E["r of ec " + _k] = ("cm", 3e17, (), lambda p, q, k=_k: ExternalCompton(p.blob, p.targets[k], r=q).sed_flux(p.nug))
    E["r of tau " + _k] = ("cm", 3e17, (), lambda p, q, k=_k: Absorption(p.targets[k], r=q).tau(p.nug) if k != "ps" else p.targets["ps"].u(q))
E["R_g units"] = ("cm", 1e15, (), lambda p, q: to_R_g_units(q, 1e8 * u.M_sun))
E["mass of R_g units"] = ("g", 1e41, (), lambda p, q: to_R_g_units(1e15 * u.cm, q))
E["B to cgs"] = ("G", 1.0, ("T",), lambda p, q: B_to_cgs(q))



# regions
E["radius of a region"] = ("cm", 1e16, (), lambda p, q: Synchrotron(Blob(R_b=q)).sed_flux(p.nu))
E["field of a region, synchrotron"] = ("G", 1.0, ("T",), lambda p, q: Synchrotron(Blob(B=q)).sed_flux(p.nu))
E["field of a region, ssc"] = ("G", 1.0, ("T",), lambda p, q: SynchrotronSelfCompton(Blob(B=q)).sed_flux(p.nug))
E["field of a region, energy density"] = ("G", 1.0, ("T",), lambda p, q: Blob(B=q).U_B)
E["field of a region, power"] = ("G", 1.0, ("T",), lambda p, q: Blob(B=q).P_jet_B)
E["field of a region, constraints"] = ("G", 1.0, ("T",), lambda p, q: SpectralConstraints(Blob(B=q)).gamma_max_synch)


def _late(attr, q, f):
    b = Blob()
    setattr(b, attr, q)
    return f(b)


E["later field, synchrotron"] = ("G", 1.0, ("T",), lambda p, q: _late("B", q, lambda b: Synchrotron(b).sed_flux(p.nu)))
E["later radius, synchrotron"] = ("cm", 1e16, (), lambda p, q: _late("R_b", q, lambda b: Synchrotron(b).sed_flux(p.nu)))
E["later radius, ssc"] = ("cm", 1e16, (), lambda p, q: _late("R_b", q, lambda b: SynchrotronSelfCompton(b).sed_flux(p.nug)))
E["later radius, ec"] = ("cm", 1e16, (), lambda p, q: _late("R_b", q, lambda b: ExternalCompton(b, p.targets["ps"], r=1e18 * u.cm).sed_flux(p.nug)))
E["later distance, synchrotron"] = ("cm", 1e27, (), lambda p, q: _late("d_L", q, lambda b: Synchrotron(b).sed_flux(p.nu)))
# densities
SHAPE = {
    "PowerLaw": dict(p=2.3),
    "BrokenPowerLaw": dict(p1=2.0, p2=3.0, gamma_b=1e3),
    "LogParabola": dict(p=2.0, q=0.2, gamma_0=1e2),
    "ExpCutoffPowerLaw": dict(p=2.2, gamma_c=1e4),
    "ExpCutoffBrokenPowerLaw": dict(p1=2.0, p2=3.0, gamma_b=1e3, gamma_c=1e4),
}


def _made(s, how, p, *args):
    """the absorbed spectrum of a region with a density made from its content"""
    n = getattr(getattr(S, s), how)(*args, mass=p.blob.n_e.mass, gamma_min=1.0, gamma_max=1e5, **SHAPE[s])
    return Synchrotron(Blob(n_e=n)).sed_flux(p.nu)


for _s in ("PowerLaw", "BrokenPowerLaw", "LogParabola", "ExpCutoffPowerLaw", "ExpCutoffBrokenPowerLaw"):
    E["k of " + _s] = ("cm-3", 1.0, (), lambda p, q, s=_s: Synchrotron(Blob(n_e=getattr(S, s)(k=q))).sed_flux(p.nu))
    E["content of " + _s] = ("cm-3", 1.0, ("erg cm-3", "erg"), lambda p, q, s=_s: _made(s, "from_total_density", p, q))
    E["energy density of " + _s] = ("erg cm-3", 1.0, (), lambda p, q, s=_s: _made(s, "from_total_energy_density", p, q))
    E["energy of " + _s] = ("erg", 1e48, ("eV",), lambda p, q, s=_s: _made(s, "from_total_energy", p, q, 1e48 * u.cm**3))
    E["volume of " + _s] = ("cm3", 1e48, (), lambda p, q, s=_s: _made(s, "from_total_energy", p, 1e48 * u.erg, q))
    E["density at 1 of " + _s] = ("cm-3", 1.0, (), lambda p, q, s=_s: _made(s, "from_density_at_gamma_1", p, q))
    E["mass of " + _s] = ("g", 1e-25, ("g",), lambda p, q, s=_s: getattr(S, s)(mass=q)(np.array([100.0])))
E["interpolated densities"] = ("cm-3", np.array([4.0, 3.0, 2.0, 1.0]), (), lambda p, q: InterpolatedDistribution(np.logspace(1, 4, 4), q)(np.array([100.0])))
# targets
E["luminosity of dt"] = ("erg s-1", 1e46, (), lambda p, q: RingDustTorus(q, 0.1, 1000 * u.K, 1e18 * u.cm).u(1e18 * u.cm))
E["luminosity of blr"] = ("erg s-1", 1e46, (), lambda p, q: SphericalShellBLR(q, 0.1, "Lyalpha", 1e17 * u.cm).u(np.array([1e18]) * u.cm))
E["luminosity of ps"] = ("erg s-1", 1e46, (), lambda p, q: PointSourceBehindJet(q, 1e-5).u(1e18 * u.cm))
E["luminosity of disk"] = ("erg s-1", 1e46, (), lambda p, q: SSDisk(1e8 * u.M_sun, q, 0.1, 6, 200, R_g_units=True).u(np.array([1e18]) * u.cm))
E["mass of disk"] = ("g", 1e41, (), lambda p, q: SSDisk(q, 1e46 * LU, 0.1, 6, 200, R_g_units=True).u(np.array([1e18]) * u.cm))
E["radius of blr"] = ("cm", 1e17, (), lambda p, q: SphericalShellBLR(1e46 * LU, 0.1, "Lyalpha", q).u(np.array([1e18]) * u.cm))
E["radius of dt"] = ("cm", 1e18, (), lambda p, q: RingDustTorus(1e46 * LU, 0.1, 1000 * u.K, q).u(1e18 * u.cm))
E["temperature of dt"] = ("K", 1000.0, (), lambda p, q: RingDustTorus(1e46 * LU, 0.1, q, 1e18 * u.cm).epsilon_dt)
E["inner radius of disk"] = ("cm", 1e14, (), lambda p, q: SSDisk(1e8 * u.M_sun, 1e46 * LU, 0.1, q, 1e17 * u.cm).u(np.array([1e18]) * u.cm))
E["outer radius of disk"] = ("cm", 1e17, (), lambda p, q: SSDisk(1e8 * u.M_sun, 1e46 * LU, 0.1, 1e14 * u.cm, q).u(np.array([1e18]) * u.cm))
E["inner radius of disk in R_g"] = (None, 6.0, (), lambda p, q: SSDisk(1e8 * u.M_sun, 1e46 * LU, 0.1, q, 200.0, R_g_units=True).u(np.array([1e18]) * u.cm))
KEYS = sorted(E)


def strat():
    return st.tuples(strat38(), st.fixed_dictionaries(dict(offers=st.lists(st.fixed_dictionaries(dict(name=st.sampled_from(KEYS), bad=gen.pick(*UNITS), x=gen.logu(1e-3, 1e3))), min_size=1, max_size=10), after=st.lists(st.sampled_from(NAMES), min_size=1, max_size=3, unique=True)))).map(
        lambda t: dict({k: v for k, v in t[0].items() if k not in ("seq", "spoil")}, **t[1]))


def offer(p, o, ctx):
    """offer a value for an argument; whether it was refused, as it has to be when of another dimension"""
    unit, value, also, f = E[o["name"]]
    bad = o["bad"]
    if bad in also and unit is not None and (bad == "g" or not u.Unit(bad).is_equivalent(u.Unit(unit))) and bad != "T":
        ctx.label("accepted on purpose")
        return False
    right = unit == bad if None in (unit, bad) else u.Unit(bad).is_equivalent(u.Unit(unit)) or (unit == "G" and bad == "T")
    if right:
        q = value if unit is None else value * u.Unit(unit)
        res = flat(f(p, q))
        ensure(all(np.all(np.isfinite(x)) for x in res), "%s in the right dimension: %s" % (o["name"], res))
        ctx.label("right")
        return False
    ctx.label(o["name"].split(" ")[0])
    v = value * o["x"]
    q = v if bad is None else v * u.Unit(bad)
    try:
        res = f(p, q)
    except Exception:
        return True
    raise Violation("%s given %s: %s" % (o["name"], q, res))


def fn(c, ctx):
    """an argument of any constructor, evaluation or setting, given in another physical dimension or as a bare number: no number comes out (an exception, at once or when the value is used); with the right dimension one does, and the objects that refused go on answering as fresh ones; non-trivial: a wrong dimension was offered"""
    p = Pool(c)
    refused = [o["name"] for o in c["offers"] if offer(p, o, ctx)]
    if not refused:
        return ctx.label("nothing refused")
    ctx.nontrivial()
    for name in c["after"]:
        for a, b in zip(flat(Q[name](p)), flat(Q[name](Pool(c)))):
            close(a, b, 1e-9, "%s after the refusal of %s" % (name, refused), floor=1e-12, atol=1e-250)


SUBS = [Sub("dimensions", fn, strat, quick=500, thorough=10000, shards=8)]
