"""Looking does not change anything: sequences of queries sharing objects and argument arrays"""

import numpy as np
import astropy.units as u
from hypothesis import strategies as st
from scipy.interpolate import PchipInterpolator

from agnpy.absorption import EBL, Absorption
from agnpy.compton import ExternalCompton, SynchrotronSelfCompton
from agnpy.constraints import SpectralConstraints
from agnpy.spectra import InterpolatedDistribution
from agnpy.synchrotron import ProtonSynchrotron, Synchrotron
from agnpy.targets import CMB, PointSourceBehindJet, RingDustTorus, SphericalShellBLR, SSDisk
from agnpy.time_evolution.time_evolution import fermi_acceleration, ssc_loss, ssc_thomson_limit_loss, synchrotron_loss
from agnpy.time_evolution.types import FnParams
from agnpy.utils.conversion import B_to_cgs, nu_to_epsilon_prime, to_R_g_units
from agnpy.utils.math import trapz_loglog
from agnpy.utils.plot import plot_sed
from vlib import build, gen, procs
from vlib.cmp import close, ensure
from vlib.runner import Sub

LU = u.Unit("erg s-1")
EBLS = ["franceschini_2008", "franceschini_2017", "dominguez_2011", "finke_2010", "saldana_lopez_2021"]


class Pool:
    """objects and argument arrays"""

    def __init__(self, c):
        b, t = c["b"], c["t"]
        n_e = None
        if c["interp"]:
            d = build.dist(b["n_e"])
            g = np.logspace(np.log10(d.gamma_min), np.log10(d.gamma_max), 20)[1:-1]
            n_e = InterpolatedDistribution(g, d(g), norm=2.0, interpolator=PchipInterpolator)
        self.blob = build.blob(b) if n_e is None else build.blob(b, n_e=n_e)
        self.targets = dict(cmb=CMB(t["zc"]), ps=PointSourceBehindJet(t["L"] * LU, t["eps"]), dt=RingDustTorus(t["L"] * LU, t["xi"], t["T"] * u.K, 10 * t["R"] * u.cm),
                            blr=SphericalShellBLR(t["L"] * LU, t["xi"], t["line"], t["R"] * u.cm), disk=SSDisk(t["M"] * u.M_sun, t["L"] * LU, t["eta"], t["Rin"], t["Rin"] * t["Rratio"], R_g_units=True))
        r = t["r"] * u.cm
        self.ec, self.ab = {}, {}
        for k, x in self.targets.items():
            self.ec[k] = ExternalCompton(self.blob, x, r=r)
            self.ec[k].set_mu(9)
            self.ec[k].set_phi(6)
            if k != "cmb":
                self.ab[k] = Absorption(x, r=r, z=0.2)
                self.ab[k].set_mu(9)
                self.ab[k].set_phi(6)
                self.ab[k].set_l(8)
        self.abs_mu = {k: Absorption(self.targets[k], r=r, z=0.2, mu_s=0.9) for k in ("dt", "blr", "ps")}
        for a in self.abs_mu.values():
            a.set_mu(9)
            a.set_phi(6)
        self.syn, self.syns = Synchrotron(self.blob), Synchrotron(self.blob, ssa=True)
        self.ssc, self.sscs = SynchrotronSelfCompton(self.blob), SynchrotronSelfCompton(self.blob, ssa=True)
        self.psyn = ProtonSynchrotron(self.blob)
        self.con = SpectralConstraints(self.blob)
        self.ebl = EBL(c["ebl"])
        # arguments, shared by all queries
        self.nu = np.array(c["nu"]) * u.Hz
        self.nug = np.array(c["nug"]) * u.Hz
        d = b["n_e"]
        self.gam = np.sort(np.concatenate([[d["gamma_min"], d["gamma_max"]], np.exp(np.log(d["gamma_min"]) + np.array(c["g"]) * np.log(d["gamma_max"] / d["gamma_min"]))]))
        self.igam = np.unique(np.clip(self.gam, 1, 1e9).astype(int))
        self.r = np.array([0.3, 2.0]) * t["R"] * u.cm
        self.R = np.array([1.5, 2.5]) * t["Rin"]
        self.y = np.where(np.arange(self.gam.size) % 3, self.gam**-1.5, 0.0)
        self.args = dict(y=self.y, nu=self.nu, nug=self.nug, gam=self.gam, igam=self.igam, r=self.r, R=self.R)


Q = {}


def query(name):
    def deco(f):
        Q[name] = f
        return f
    return deco


for _k in ("cmb", "ps", "dt", "blr", "disk"):
    Q["ec " + _k] = lambda p, k=_k: p.ec[k].sed_flux(p.nug)
    if _k != "cmb":
        Q["u " + _k] = lambda p, k=_k: p.targets[k].u(p.r[:1] if k == "disk" else p.r)
        Q["u comoving " + _k] = lambda p, k=_k: p.targets[k].u(p.r[:1] if k == "disk" else p.r, p.blob)
        Q["tau " + _k] = lambda p, k=_k: p.ab[k].tau(p.nug)
        Q["absorption " + _k] = lambda p, k=_k: p.ab[k].absorption(p.nug)
        Q["homogeneous " + _k] = lambda p, k=_k: p.ab[k].absorption_homogeneous(p.nug)
for _k in ("dt", "blr", "ps"):
    Q["tau angle " + _k] = lambda p, k=_k: p.abs_mu[k].tau(p.nug)
Q.update({
    "u cmb": lambda p: p.targets["cmb"].u(),
    "u cmb comoving": lambda p: p.targets["cmb"].u(p.blob),
    "tau on synchrotron": lambda p: p.ab["dt"].tau_on_synchrotron(p.blob, p.nug[:1], nu_s_size=20),
    "ebl": lambda p: p.ebl.absorption(p.nug, 0.3),
    "ebl other z": lambda p: p.ebl.absorption(p.nug, 0.7),
    "disk sed": lambda p: p.targets["disk"].sed_flux(p.nu, 0.5),
    "disk sed z": lambda p: p.targets["disk"].sed_flux(p.nu, 0.1, 0.5),
    "torus sed": lambda p: p.targets["dt"].sed_flux(p.nu, 0.5),
    "disk T": lambda p: p.targets["disk"].T(p.targets["disk"].R_in * p.R),
    "disk epsilon": lambda p: p.targets["disk"].epsilon(p.R),
    "disk phi": lambda p: p.targets["disk"].phi_disk(p.R),
    "synch": lambda p: p.syn.sed_flux(p.nu),
    "synch ssa": lambda p: p.syns.sed_flux(p.nu),
    "synch luminosity": lambda p: p.syn.sed_luminosity(p.nu),
    "synch peak": lambda p: p.syn.sed_peak_flux(p.nu),
    "synch peak nu": lambda p: p.syn.sed_peak_nu(p.nu),
    "synch delta": lambda p: p.syn.sed_flux_delta_approx(p.nu),
    "synch loss": lambda p: p.syn.electron_energy_loss_rate(p.gam),
    "diff flux": lambda p: p.syn.diff_energy_flux(p.nu),
    "flux integral": lambda p: p.syn.flux_integral(p.nu[0], p.nu[0] * 10, 5),
    "energy flux integral": lambda p: p.syn.energy_flux_integral(p.nu[0], p.nu[0] * 10, 5),
    "proton synch": lambda p: p.psyn.sed_flux(p.nu),
    "ssc": lambda p: p.ssc.sed_flux(p.nug[:2]),
    "ssc ssa": lambda p: p.sscs.sed_flux(p.nug[:2]),
    "ssc loss": lambda p: p.ssc.electron_energy_loss_rate(p.gam),
    "ssc loss thomson": lambda p: p.ssc.electron_energy_loss_rate_thomson(p.gam),
    "n_e": lambda p: p.blob.n_e(p.gam),
    "n_e int": lambda p: p.blob.n_e(p.igam),
    "n_e ssa": lambda p: p.blob.n_e.SSA_integrand(p.gam),
    "n_e static": lambda p: p.blob.n_e.evaluate(p.gam, *p.blob.n_e.parameters),
    "n_e integral": lambda p: p.blob.n_e.integrate(),
    "n_e energy": lambda p: p.blob.n_e.integrate(gamma_power=1),
    "n_e part": lambda p: p.blob.n_e.integrate(p.gam[0], p.gam[-1], 2),
    "n_p": lambda p: p.blob.n_p(p.gam),
    "N_e": lambda p: p.blob.N_e(p.gam),
    "N_p": lambda p: p.blob.N_p(p.gam),
    "gamma_e": lambda p: p.blob.gamma_e,
    "gamma_e ext": lambda p: p.blob.gamma_e_external_frame,
    "gamma_p": lambda p: p.blob.gamma_p,
    "blob": lambda p: [getattr(p.blob, x) for x in ("V_b", "t_var", "Beta", "mu_s", "theta_s", "B_cgs", "n_e_tot", "n_p_tot", "N_e_tot", "N_p_tot", "u_e", "u_p", "W_e", "W_p", "U_B", "k_eq", "P_jet_ke", "P_jet_B")],
    "u_ph_synch": lambda p: p.blob.u_ph_synch,
    "constraints": lambda p: [getattr(p.con, x) for x in ("gamma_max_larmor", "gamma_max_ballistic", "gamma_max_synch", "gamma_max_SSC", "gamma_break_synch", "gamma_break_SSC")] + [p.con.gamma_max_EC_DT(p.targets["dt"], p.r[0]), p.con.gamma_break_EC_DT(p.targets["dt"], p.r[0])],
    "text": lambda p: [len(str(x)) for x in [p.blob, p.blob.n_p, p.targets["disk"], p.targets["blr"], p.targets["dt"]]],
    "loss synch": lambda p: synchrotron_loss(p.syn)(FnParams(p.gam, None, None)),
    "loss ssc": lambda p: ssc_loss(p.ssc)(FnParams(p.gam, None, None)),
    "loss thomson": lambda p: ssc_thomson_limit_loss(p.ssc)(FnParams(p.gam, None, None)),
    "fermi": lambda p: fermi_acceleration(3 * u.h)(FnParams(p.gam, None, None)),
    "epsilon": lambda p: nu_to_epsilon_prime(p.nu, 0.3, 4.0),
    "R_g": lambda p: to_R_g_units(p.r, 1e8 * u.M_sun),
    "B": lambda p: B_to_cgs(p.blob.B),
    "loglog": lambda p: trapz_loglog(p.gam**-2.0, p.gam),
    "loglog zeros": lambda p: trapz_loglog(np.where(p.gam > p.gam[1], p.gam, 0.0), p.gam),
    "loglog array": lambda p: trapz_loglog(p.y, np.arange(1.0, p.y.size + 1)),
})


@query("plot")
def _plot(p):
    import matplotlib.pyplot as plt

    fig, ax = plt.subplots()
    try:
        plot_sed(p.nu, p.syn.sed_flux(p.nu), ax=ax)
        p.blob.n_e.plot(gamma=p.gam, gamma_power=2, ax=ax)
        return [np.array(x.get_xydata(), float) for x in ax.lines]
    finally:
        plt.close(fig)


NAMES = sorted(Q)


def flat(x):
    """plain arrays in a fixed unit"""
    if isinstance(x, (list, tuple)):
        return [y for z in x for y in flat(z)]
    if isinstance(x, u.Quantity):
        return [np.array(x.cgs.value, float, ndmin=1)]
    return [np.array(x, float, ndmin=1)]


def state(o, depth=0):
    """public attributes, recursively"""
    if isinstance(o, u.Quantity):
        return ("q", str(o.unit), np.array(o.value, copy=True))
    if isinstance(o, np.ndarray):
        return ("a", np.array(o, copy=True))
    if isinstance(o, (int, float, str, bool, type(None))):
        return o
    if hasattr(o, "__dict__") and type(o).__module__.startswith("agnpy") and depth < 4:
        return {k: state(v, depth + 1) for k, v in vars(o).items() if not k.startswith("_")}
    return "other"


def differs(a, b):
    """what of a is different in b (things added to b do not count)"""
    if isinstance(a, dict):
        for k in a:
            if not isinstance(b, dict) or k not in b:
                return k + " gone"
            d = differs(a[k], b[k])
            if d is not None:
                return k + " " + d
        return None
    if isinstance(a, tuple):
        if type(a) is not type(b) or a[:-1] != b[:-1] or a[-1].shape != b[-1].shape or not np.allclose(a[-1], b[-1], rtol=1e-9, atol=0, equal_nan=True):
            return "%s -> %s" % (a[-1].ravel()[:4], b[-1].ravel()[:4] if isinstance(b, tuple) else b)
        return None
    return None if a == b else "%r -> %r" % (a, b)


def strat():
    return st.fixed_dictionaries(dict(
        b=gen.blob(n_e=gen.dist(decades=(1.5, 5), gmin=(1, 1e3)), n_p=gen.dist(mass="p", decades=(1, 5)), sizes=(30, 60)), t=procs.targets(), interp=gen.pick(False, False, True), ebl=gen.pick(*EBLS),
        nu=gen.freqs(1e9, 1e19, nmin=3, nmax=4), nug=gen.freqs(1e24, 3e27, nmin=2, nmax=4), g=st.lists(gen.lin(0.02, 0.98), min_size=2, max_size=4, unique=True),
        seq=st.tuples(st.lists(st.sampled_from(NAMES), min_size=2, max_size=8), st.lists(st.integers(0, 7), min_size=1, max_size=6)).map(lambda t: t[0] + [t[0][i % len(t[0])] for i in t[1]]), spoil=st.booleans()))


def fn(c, ctx):
    """any sequence of queries on one set of objects, all given the same argument arrays, their results overwritten by the caller or not: each returns what it returns on freshly built objects, leaves its arguments as they were (bounds missed by rounding may be corrected) and afterwards every public attribute of every object is what it was; non-trivial: always"""
    p = Pool(c)
    objs = dict(blob=p.blob, targets=None, con=p.con, syn=p.syns, ssc=p.sscs)
    objs.update(p.targets)
    objs.update({"ec " + k: v for k, v in p.ec.items()})
    objs.update({"absorption " + k: v for k, v in p.ab.items()})
    objs.update({"absorption at angle " + k: v for k, v in p.abs_mu.items()})
    before = {k: state(o) for k, o in objs.items()}
    args = {k: (np.array(v.value if hasattr(v, "unit") else v, copy=True)) for k, v in p.args.items()}
    ctx.nontrivial()
    for name in c["seq"]:
        ctx.label(name.split()[0])
        res = Q[name](p)
        got = flat(res)
        if c["spoil"]:
            for x in res if isinstance(res, list) else [res]:
                if isinstance(x, np.ndarray) and x.ndim and x.flags.writeable and name not in ("blob",):
                    x[...] = -1 * getattr(x, "unit", 1)
        want = flat(Q[name](Pool(c)))
        ensure(len(got) == len(want), "%s: %d results instead of %d" % (name, len(got), len(want)))
        for a, b in zip(got, want):
            close(a, b, 1e-9, "%s after %s" % (name, c["seq"][: c["seq"].index(name)]), floor=1e-12, atol=1e-250)
        if c["spoil"]:
            again = flat(Q[name](p))
            ensure(len(again) == len(want), "%s asked again: %d results instead of %d" % (name, len(again), len(want)))
            for a, b in zip(again, want):
                close(a, b, 1e-9, "%s asked again, the first answer being overwritten" % name, floor=1e-12, atol=1e-250)
        for k, v in p.args.items():
            x = v.value if hasattr(v, "unit") else v
            ensure(np.allclose(x, args[k], rtol=1e-9, atol=0), "%s changed its argument %s: %s -> %s" % (name, k, args[k], x))
    for k, o in objs.items():
        d = differs(before[k], state(o))
        ensure(d is None, "after %s, %s: %s" % (c["seq"], k, d))


SUBS = [Sub("sequences", fn, strat, quick=240, thorough=6000, shards=8)]
