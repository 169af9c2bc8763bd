"""The units in which the parameters are given do not matter"""
import copy

import numpy as np
import astropy.units as u
from hypothesis import strategies as st
from scipy.interpolate import PchipInterpolator

from agnpy.absorption import EBL, Absorption
from agnpy.compton import ExternalCompton, SynchrotronSelfCompton
from agnpy.constraints import SpectralConstraints
from agnpy.emission_regions import Blob
from agnpy.spectra import InterpolatedDistribution
from agnpy.synchrotron import ProtonSynchrotron, Synchrotron
from agnpy.targets import CMB, PointSourceBehindJet, RingDustTorus, SphericalShellBLR, SSDisk
from agnpy.time_evolution.time_evolution import TimeEvolution, synchrotron_loss
from vlib import build, gen, procs
from vlib.cmp import close, ensure
from vlib.runner import Sub
from checks.C38 import EBLS, Pool, Q, flat

LENGTHS = ["m", "km", "AU", "lyr", "pc", "kpc", "R_sun", "cm"]
UNITS = {
    "L": ["W", "L_sun", "TeV s-1", "J yr-1", "erg d-1"],
    "M": ["kg", "g", "M_sun", "M_earth"],
    "T": ["mK", "kK", "K"],
    "B": ["mG", "uG", "kG", "T", "nT", "G"],
    "n": ["m-3", "km-3", "pc-3", "l-1"],
    "nu": ["GHz", "kHz", "PHz", "s-1", "d-1"],
}
GROUPS = ["R_b", "B", "n_e", "n_p", "L", "T", "M", "R_dt", "R_line", "R_in", "R_out", "r", "nu", "nug", "heights"]
KIND = dict(L="L", T="T", M="M", B="B", n_e="n", n_p="n", nu="nu", nug="nu")
CANON = dict(L="erg s-1", T="K", M="M_sun", B="G", n="cm-3", nu="Hz")


class Mixed(Pool):
    """the objects and arguments of C38, each quantity in a unit of its own; factors: relative changes of each (rounding)"""

    def __init__(self, c, units=None, factors=None, late=False):
        b, t = c["b"], c["t"]

        def q(name, x):
            kind = KIND.get(name)
            x = x * (factors[name] if factors else 1.0) * u.Unit(CANON[kind] if kind else "cm")
            return x.to(units[name]) if units else x

        def dist(d, name):
            x = build.dist(d)
            x.k = q(name, d["k"])
            return x

        n_e = dist(b["n_e"], "n_e")
        if c["interp"]:
            g = np.logspace(np.log10(n_e.gamma_min), np.log10(n_e.gamma_max), 20)[1:-1]
            n_e = InterpolatedDistribution(g, n_e(g).to("cm-3"), norm=2.0, interpolator=PchipInterpolator)
        first = dict(R_b=q("R_b", b["R_b"]), B=q("B", b["B"]))
        if late:  # replaced afterwards
            first = dict(R_b=1e15 * u.cm, B=1 * u.G)
        self.blob = Blob(z=b["z"], delta_D=b["delta_D"], Gamma=b["Gamma"], n_e=n_e, n_p=dist(b["n_p"], "n_p"), xi=b["xi"], gamma_e_size=b["gamma_e_size"], gamma_p_size=b["gamma_p_size"], cosmology=build.COSMO[b.get("cosmo")], **first)
        if late:
            self.blob.R_b, self.blob.B = q("R_b", b["R_b"]), q("B", b["B"])
        L = q("L", t["L"])
        M = q("M", t["M"])
        Rg = (t["M"] * u.M_sun * 6.6743e-8 / 2.99792458e10**2).to_value("g")
        T = q("T", t["T"])
        self.targets = dict(cmb=CMB(t["zc"]), ps=PointSourceBehindJet(L, t["eps"]), dt=RingDustTorus(L, t["xi"], T, q("R_dt", 10 * t["R"]) if c["torus"] else None),
                            blr=SphericalShellBLR(L, t["xi"], t["line"], q("R_line", t["R"])), disk=SSDisk(M, L, t["eta"], q("R_in", t["Rin"] * Rg), q("R_out", t["Rin"] * t["Rratio"] * Rg)))
        r = q("r", t["r"])
        self.ec, self.ab = {}, {}
        for k, x in self.targets.items():
            self.ec[k] = ExternalCompton(self.blob, x, r=r)
            self.ec[k].set_mu(9)
            self.ec[k].set_phi(6)
            if k != "cmb":
                self.ab[k] = Absorption(x, r=r, z=0.2)
                self.ab[k].set_mu(9)
                self.ab[k].set_phi(6)
                self.ab[k].set_l(8)
        self.abs_mu = {k: Absorption(self.targets[k], r=r, z=0.2, mu_s=0.9) for k in ("dt", "blr", "ps")}
        for a in self.abs_mu.values():
            a.set_mu(9)
            a.set_phi(6)
        self.syn, self.syns = Synchrotron(self.blob), Synchrotron(self.blob, ssa=True)
        self.ssc, self.sscs = SynchrotronSelfCompton(self.blob), SynchrotronSelfCompton(self.blob, ssa=True)
        self.psyn = ProtonSynchrotron(self.blob)
        self.con = SpectralConstraints(self.blob)
        self.ebl = EBL(c["ebl"])
        self.nu, self.nug = q("nu", np.array(c["nu"])), q("nug", np.array(c["nug"]))
        d = b["n_e"]
        self.gam = np.sort(np.concatenate([[d["gamma_min"], d["gamma_max"]], np.exp(np.log(d["gamma_min"]) + np.array(c["g"]) * np.log(d["gamma_max"] / d["gamma_min"]))]))
        self.r = q("heights", np.array([0.3, 2.0]) * t["R"])
        self.R = np.array([1.5, 2.5]) * t["Rin"]


def evolve(p):
    # a short cooling by synchrotron losses
    fastest = p.syn.electron_energy_loss_rate(p.blob.n_e.gamma_max) / p.blob.n_e.gamma_max
    T = (0.05 * 8.187105776823886e-07 * u.erg / fastest).to("d")
    blob = copy.copy(p.blob)
    r = TimeEvolution(blob, T, synchrotron_loss(Synchrotron(blob)), step_duration=T / 2).evaluate()
    return [r.gamma, r.density, blob.u_e]


# numbers that depend on no unit, or text and plots that show the unit
SKIP = {"text", "plot", "gamma_e", "gamma_e ext", "gamma_p", "fermi", "loglog", "loglog zeros", "loglog array", "disk epsilon", "n_e int", "n_e"}
MORE = {
    "evolution": evolve,
    "disk attributes": lambda p: [getattr(p.targets["disk"], x) for x in ("M_8", "L_Edd", "l_Edd", "m_dot", "R_g", "R_in_tilde", "R_out_tilde", "R_tilde")],
    "disk cosines": lambda p: [p.ec["disk"].mu],
    "torus attributes": lambda p: [getattr(p.targets["dt"], x) for x in ("Theta", "epsilon_dt", "R_dt")],
    "n_e values": lambda p: p.blob.n_e(p.gam),
    "density ssa": lambda p: p.blob.n_e.SSA_integrand(p.gam),
    "disk T, one radius": lambda p: p.targets["disk"].T(2 * p.targets["disk"].R_in),
    "integrals between energies": lambda p: [p.syn.flux_integral(p.nu[0], p.nu[-1]), p.syn.energy_flux_integral(p.nu[0], p.nu[-1])],
    "tau of the blob": lambda p: Absorption(p.blob, z=p.blob.z).tau(p.nug),
    "homogeneous, blob": lambda p: Absorption(p.blob, z=p.blob.z).absorption_homogeneous(p.nug),
    "break and maximum, other heights": lambda p: [p.con.gamma_max_EC_DT(p.targets["dt"], x) for x in p.r] + [p.con.gamma_break_EC_DT(p.targets["dt"], x) for x in p.r],
}
ASK = dict({k: v for k, v in Q.items() if k not in SKIP}, **MORE)
NAMES = sorted(ASK)


def strat():
    unit = lambda k: gen.pick(*(UNITS[KIND[k]] if k in KIND else LENGTHS))  # noqa: E731
    return st.fixed_dictionaries(dict(
        b=gen.blob(n_e=gen.dist(decades=(1.5, 5), gmin=(1, 1e3)), n_p=gen.dist(mass="p", decades=(1, 5)), sizes=(30, 60)), t=procs.targets(), interp=gen.pick(False, False, True), torus=gen.pick(True, True, False), late=st.booleans(), ebl=gen.pick(*EBLS),
        nu=gen.freqs(1e9, 1e19, nmin=3, nmax=4), nug=gen.freqs(1e24, 3e27, nmin=2, nmax=4), g=st.lists(gen.lin(0.02, 0.98), min_size=2, max_size=4, unique=True),
        units=st.fixed_dictionaries({k: unit(k) for k in GROUPS}), ask=st.lists(st.integers(0, len(NAMES) - 1), min_size=4, max_size=12, unique=True)))


def fn(c, ctx):
    """every quantity of regions, particles, targets, distances and frequencies in a unit of its own, at construction or put in place afterwards: any query answers as in cgs units, but for what rounding of the inputs explains; non-trivial: two units differ from cgs at least"""
    ctx.nontrivial(sum(c["units"][k] not in ("cm", "G", "M_sun", "K") for k in GROUPS) > 1)
    base, p = Mixed(c), Mixed(c, c["units"], late=c["late"])
    rng = np.random.RandomState(1)
    shaken = []
    for i in c["ask"]:
        name = NAMES[i]
        ctx.label(name.split()[0])
        got, want = flat(ASK[name](p)), flat(ASK[name](base))
        ensure(len(got) == len(want), "%s: %d results instead of %d" % (name, len(got), len(want)))
        if all(a.shape == b.shape and np.all(np.abs(a - b) <= 1e-9 * np.abs(b) + 1e-12 * np.max(np.abs(b), initial=0) + 1e-250) for a, b in zip(got, want)):
            continue
        # what changes of the size of rounding do
        if not shaken:
            shaken = [Mixed(c, factors={k: 1 + s * rng.choice([-1, 1]) for k in GROUPS}) for s in (1e-15, 1e-14, 1e-13, 1e-12, 1e-15, 1e-14, 1e-13, 1e-12)]
        others = [flat(ASK[name](x)) for x in shaken]
        for j, (a, b) in enumerate(zip(got, want)):
            noise = np.max([np.abs(o[j] - b) for o in others], axis=0)
            # the innermost ring of a disk, where rounding of R_in makes a temperature of (1e-16)^(1/4) out of zero
            close(a, b, 1e-5 if name.startswith("disk sed") else 1e-8, "%s in other units" % name, atol=10 * noise + 1e-250, floor=1e-12)


SUBS = [Sub("mixed", fn, strat, quick=480, thorough=10000, shards=8)]
