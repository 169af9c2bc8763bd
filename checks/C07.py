"""The emission region is live: after any history of changes and evaluations every observable equals that of a
freshly built object in the final state"""
import copy

import numpy as np
import astropy.units as u
from hypothesis import strategies as st

from agnpy.compton import ExternalCompton, SynchrotronSelfCompton
from agnpy.constraints import SpectralConstraints
from agnpy.absorption import Absorption
from agnpy.synchrotron import ProtonSynchrotron, Synchrotron
from agnpy.targets import PointSourceBehindJet
from vlib import build, gen, procs, ref
from vlib.cmp import close, ensure, val
from vlib.runner import Sub

PROPS = [
    ("V_b", "cm3"), ("t_var", "s"), ("Beta", ""), ("mu_s", ""), ("B_cgs", "cm(-1/2) g(1/2) s-1"), ("n_e_tot", "cm-3"),
    ("N_e_tot", ""), ("u_e", "erg cm-3"), ("W_e", "erg"), ("U_B", "erg cm-3"), ("k_eq", ""), ("P_jet_ke", "erg s-1"),
    ("P_jet_B", "erg s-1"), ("u_ph_synch", "erg cm-3"),
]
PPROPS = [("n_p_tot", "cm-3"), ("N_p_tot", ""), ("u_p", "erg cm-3"), ("W_p", "erg")]
NU = np.logspace(9, 27, 7) * u.Hz
NUG = np.logspace(25, 28, 3) * u.Hz
NUP = np.logspace(9, 30, 6) * u.Hz


def op():
    return st.one_of(
        st.tuples(st.just("R_b"), gen.logu(1e14, 1e17)),
        st.tuples(st.just("B"), gen.logu(1e-3, 10)),
        st.tuples(st.just("B_mG"), gen.logu(1, 1e4)),
        st.tuples(st.just("delta"), gen.lin(1.05, 40), gen.logu(0.05, 40)),
        st.tuples(st.just("Gamma"), gen.lin(1.5, 40)),
        st.tuples(st.just("n_e"), gen.dist(decades=(1, 5))),
        st.tuples(st.just("n_e_attr"), st.integers(0, 6), gen.logu(0.3, 3)),
        st.tuples(st.just("n_p"), gen.dist(mass="p", decades=(1, 5))),
        st.tuples(st.just("n_p_attr"), st.integers(0, 6), gen.logu(0.3, 3)),
        st.tuples(st.just("xi"), gen.logu(1e-6, 1)),
        st.tuples(st.just("e_size"), st.integers(50, 120)),
        st.tuples(st.just("p_size"), st.integers(50, 120)),
        st.tuples(st.just("z"), gen.pick(0.01, 0.1, 0.5, 1.0)),
        st.tuples(st.just("r"), gen.logu(1e16, 1e19)),
        st.tuples(st.just("mu"), st.integers(5, 15)),
        st.tuples(st.just("phi"), st.integers(5, 15)),
        st.tuples(st.just("mu_s"), gen.pick(1, 0.5, 0.9, -0.3)),
        st.tuples(st.just("za"), gen.lin(0, 1)),
        st.tuples(st.just("target"), st.integers(0, 3), gen.logu(0.1, 10)),
        st.tuples(st.just("target"), st.integers(0, 3), gen.logu(0.1, 10)),
        st.tuples(st.just("swap"), st.integers(0, 4)),
        st.tuples(st.just("look"), st.integers(0, 1023)),
        st.tuples(st.just("look"), st.integers(0, 1023)),
        st.tuples(st.just("look"), st.integers(0, 1023)),
    ).map(list)


def strat():
    return st.fixed_dictionaries(
        dict(b=gen.blob(n_e=gen.dist(decades=(1, 5)), n_p=gen.dist(mass="p", decades=(1, 5)), sizes=(50, 120)), ops=st.lists(op(), min_size=3, max_size=16),
             ssa=st.booleans(), views=st.integers(0, 15), t=procs.targets())
    )


EXT = ["ec_cmb", "ec_dt", "ec_blr", "ec_disk", "ec_ps"]
# attributes of the targets which nothing else is derived from, by the key of the case
LIVE = {
    "L": [("ec_dt", "L_disk", 1), ("ec_blr", "L_disk", 1), ("ec_disk", "L_disk", 1), ("ec_ps", "L_0", 1)],
    "xi": [("ec_dt", "xi_dt", 1), ("ec_blr", "xi_line", 1)],
    "R": [("ec_dt", "R_dt", 10), ("ec_blr", "R_line", 1)],
    "eps": [("ec_ps", "epsilon_0", 1)],
}
UNITS = {"L": u.Unit("erg s-1"), "xi": 1, "R": u.cm, "eps": 1}


class Observers:
    """long-lived objects built on one blob"""

    def __init__(self, blob, ssa, t):
        self.blob = blob
        # the targets belong to the caller, who may go on changing them
        self.targets = {n: procs.target(n, t) for n in EXT}
        self.ecs = {n: ExternalCompton(blob, self.targets[n], r=t["r"] * u.cm) for n in EXT}
        self.taus = {n: Absorption(self.targets[n], t["r"] * u.cm, z=t.get("za", 0.1), mu_s=t.get("mu_s", 1)) for n in EXT[1:3] + EXT[4:]}
        for x in list(self.ecs.values()) + list(self.taus.values()):
            x.set_mu(t.get("mu", 11))
            x.set_phi(t.get("phi", 7))
        for x in self.taus.values():
            x.set_l(12)
        own = Absorption(blob, z=blob.z)
        self.procs = {
            "synch": lambda o=Synchrotron(blob, ssa=ssa): val(o.sed_flux(NU), "erg cm-2 s-1"),
            "synch_loss": lambda o=Synchrotron(blob): val(o.electron_energy_loss_rate(np.array([10.0, 1e4])), "erg s-1"),
            "psynch": lambda o=ProtonSynchrotron(blob): val(o.sed_flux(NUP), "erg cm-2 s-1"),
            "ssc": lambda o=SynchrotronSelfCompton(blob, ssa=ssa): val(o.sed_flux(NU[3:]), "erg cm-2 s-1"),
            "ec": lambda o=ExternalCompton(blob, PointSourceBehindJet(1e45 * u.Unit("erg s-1"), 1e-5), r=1e18 * u.cm): val(o.sed_flux(NU[3:]), "erg cm-2 s-1"),
            "constraints": lambda o=SpectralConstraints(blob): np.array(
                [o.gamma_max_larmor, o.gamma_max_ballistic, o.gamma_max_synch, o.gamma_max_SSC, o.gamma_break_synch, o.gamma_break_SSC], float),
            "tau of the blob": lambda: val(own.tau(NUG), ""),
        }
        for n in EXT:
            self.procs[n] = lambda n=n: val(self.ecs[n].sed_flux(NU[4:]), "erg cm-2 s-1")
        for n in self.taus:
            self.procs["tau " + n] = lambda n=n: val(self.taus[n].tau(NUG), "")

    def props(self):
        out = {p: val(getattr(self.blob, p), un) for p, un in PROPS + PPROPS}
        out["gamma_e"] = np.asarray(self.blob.gamma_e)
        out["gamma_e_ext"] = np.asarray(self.blob.gamma_e_external_frame)
        out["gamma_p"] = np.asarray(self.blob.gamma_p)
        g = self.blob.gamma_e
        out["N_e"] = val(self.blob.N_e(g[::20]), "")
        out["N_p"] = val(self.blob.N_p(self.blob.gamma_p[::20]), "")
        return out


def mutate_dist(d, obj, which, f):
    keys = ["k"] + build.SHAPE_KEYS[d["shape"]] + ["gamma_min", "gamma_max"]
    key = keys[which % len(keys)]
    new = d[key] * f
    if key == "gamma_min" and not (1 <= new < 0.5 * d["gamma_max"]):
        return
    if key == "gamma_max" and not (2 * d["gamma_min"] < new < 1e9):
        return
    d[key] = new
    setattr(obj, key, new * u.Unit("cm-3") if key == "k" else new)


def fn(c, ctx):
    """random sequences of attribute changes (radius, field, Doppler factor, particle distributions replaced or edited in place, grid sizes, redshift with distance, distances, angles and parameters of the targets, which the caller holds) interleaved with evaluations; compared with a fresh object; non-trivial: a look before a change"""
    s = copy.deepcopy(c["b"])
    blob = build.blob(s)
    other_desc = copy.deepcopy(c["b"])
    other = build.blob(other_desc)  # a bystander: must not change
    t = dict(c["t"])
    obs = Observers(blob, c["ssa"], t)
    by0 = Observers(other, c["ssa"], t).props()
    names = list(obs.procs)
    looked = False
    changed_after_look = False
    for o in c["ops"]:
        k = o[0]
        if k == "look":
            looked = True
            obs.props()
            for i, n in enumerate(names):
                if o[1] >> (3 * i % 10) & 1 and n != "ssc":
                    obs.procs[n]()
            if o[1] % 7 == 0:
                obs.procs["ssc"]()
            continue
        changed_after_look |= looked
        if k == "R_b":
            s["R_b"] = o[1]
            blob.R_b = o[1] * u.cm
        elif k == "B":
            s["B"] = o[1]
            blob.B = o[1] * u.G
        elif k == "B_mG":
            s["B"] = o[1] * 1e-3
            blob.B = o[1] * u.mG
        elif k == "delta":
            s["Gamma"] = o[1]
            blob.set_delta_D(o[1], o[2] * u.deg)
            s["delta_D"] = float(blob.delta_D)
            b2 = np.sqrt(1 - 1 / o[1] ** 2)
            close(s["delta_D"], 1 / (o[1] * (1 - b2 * np.cos(np.radians(o[2])))), 1e-7, "delta_D")
        elif k == "Gamma":
            s["Gamma"] = blob.Gamma = o[1]
        elif k == "n_e":
            s["n_e"] = dict(o[1])
            blob.n_e = build.dist(o[1])
        elif k == "n_p":
            s["n_p"] = dict(o[1])
            blob.n_p = build.dist(o[1])
        elif k == "n_e_attr":
            mutate_dist(s["n_e"], blob.n_e, o[1], o[2])
        elif k == "n_p_attr":
            mutate_dist(s["n_p"], blob.n_p, o[1], o[2])
        elif k == "xi":
            s["xi"] = blob.xi = o[1]
        elif k == "e_size":
            s["gamma_e_size"] = blob.gamma_e_size = o[1]
        elif k == "p_size":
            s["gamma_p_size"] = blob.gamma_p_size = o[1]
        elif k == "z":
            s["z"] = blob.z = o[1]
            blob.d_L = build.blob(dict(s, z=o[1])).d_L
        elif k == "r":
            t["r"] = o[1]
            for x in list(obs.ecs.values()) + list(obs.taus.values()):
                x.r = o[1] * u.cm
        elif k in ("mu", "phi"):
            t[k] = o[1]
            for x in list(obs.ecs.values()) + list(obs.taus.values()):
                getattr(x, "set_" + k)(o[1])
        elif k in ("mu_s", "za"):
            t[k] = o[1]
            for x in obs.taus.values():
                setattr(x, "mu_s" if k == "mu_s" else "z", o[1])
        elif k == "target":
            key = list(LIVE)[o[1] % len(LIVE)]
            t[key] = min(t[key] * o[2], 1) if key == "xi" else t[key] * o[2]
            for n, attr, f in LIVE[key]:
                setattr(obs.targets[n], attr, f * t[key] * UNITS[key])
        elif k == "swap":
            # another target of the same kind
            n = EXT[o[1] % len(EXT)]
            obs.targets[n] = obs.ecs[n].target = procs.target(n, t)
            if n in obs.taus:
                obs.taus[n].target = obs.targets[n]
    ctx.nontrivial(changed_after_look)
    fresh = Observers(build.blob(s), c["ssa"], t)
    a, b = obs.props(), fresh.props()
    for k in b:
        close(a[k], b[k], 1e-9, "%s after the history" % k)
    for i, n in enumerate(names):
        if n == "ssc" and not (c["views"] & 1):
            continue
        close(obs.procs[n](), fresh.procs[n](), 1e-8, "%s of the object with a history vs a fresh one" % n, atol=1e-200)
    by1 = Observers(other, c["ssa"], c["t"]).props()
    for k in by0:
        close(by1[k], by0[k], 1e-12, "%s of another blob" % k)


SUBS = [Sub("histories", fn, strat, quick=560, thorough=8000, shards=8)]
