"""Rates of energy change for the time evolution"""
import numpy as np
import astropy.units as u
from hypothesis import strategies as st

from agnpy.compton import SynchrotronSelfCompton
from agnpy.spectra import InterpolatedDistribution
from agnpy.synchrotron import Synchrotron
from agnpy.time_evolution import FnParams, TimeEvolution, fermi_acceleration, ssc_loss, ssc_thomson_limit_loss, synchrotron_loss
from vlib import build, evo, gen, ref
from vlib.cmp import close, ensure, val
from vlib.runner import Sub


def blobs():
    return gen.blob(n_e=gen.dist(gmin=(2, 1e3), decades=(1, 5), k=gen.logu(1e-6, 1e6)), sizes=(20, 60))


def strat():
    return st.fixed_dictionaries(dict(b=blobs(), g=st.lists(gen.logu(1, 1e8), min_size=1, max_size=6), t=gen.logu(1e-3, 1e9), unit=gen.pick("s", "h", "d"), change=gen.pick("B", "n_e", "R_b"), x=gen.logu(0.1, 10), d2=gen.dist(gmin=(2, 1e3), decades=(1, 5), k=gen.logu(1e-6, 1e6))))


def rates(b, d, dL, g):
    grid = ref.grid(d, b["gamma_e_size"])
    UB = b["B"] ** 2 / (8 * np.pi)
    Us = ref.ST * UB * b["R_b"] * ref.trapz(ref.n_of(d, grid) * grid**2, grid)
    k = 4 / 3 * ref.ST * ref.C * g**2
    return -k * UB, -k * Us, -ref.kn_loss(g, b["z"], dL, b["delta_D"], b["B"], b["R_b"], lambda x: ref.n_of(d, x))


def fn(c, ctx):
    """synchrotron, inverse Compton and Thomson-limit losses are the (negative) loss rates of the region as it is when they are called, also after it has changed; Fermi acceleration is the particle energy over the time scale; non-trivial: the change of the region changes a rate by more than 10 %"""
    b, d = c["b"], c["b"]["n_e"]
    for dd in (d, c["d2"]):
        for x in (dd["gamma_min"], dd["gamma_max"], dd.get("gamma_b", 1.5)):
            if np.any(np.abs(ref.GAMMA_DEFAULT / x - 1) < 1e-9):
                return
        if "gamma_b" in dd and np.any(np.abs(ref.grid(dd, b["gamma_e_size"]) / dd["gamma_b"] - 1) < 1e-9):
            return
    blob = build.blob(b)
    syn, ssc = Synchrotron(blob), SynchrotronSelfCompton(blob)
    fs = synchrotron_loss(syn), ssc_thomson_limit_loss(ssc), ssc_loss(ssc)
    g = np.array(sorted(c["g"]))
    args = FnParams(g, np.ones(len(g)) * u.Unit("cm-3"), np.ones((1, len(g))))
    dL = val(blob.d_L, "cm")
    first = rates(b, d, dL, g)
    for f, want, what in zip(fs, first, ("synchrotron", "Thomson", "SSC")):
        close(val(f(args), "erg s-1"), want, 1e-5, what + " losses", floor=1e-12, atol=1e-200)
    t = (c["t"] * u.s).to(c["unit"])
    close(val(fermi_acceleration(t)(args), "erg s-1"), evo.MEC2 * g / c["t"], 1e-9, "Fermi acceleration")
    b2, d2 = dict(b), d
    if c["change"] == "B":
        b2["B"] = b["B"] * c["x"]
        blob.B = b2["B"] * u.G
    elif c["change"] == "R_b":
        b2["R_b"] = b["R_b"] * c["x"]
        blob.R_b = b2["R_b"] * u.cm
    else:
        d2 = c["d2"]
        blob.n_e = build.dist(d2)
    second = rates(b2, d2, dL, g)
    ctx.label(c["change"])
    ctx.nontrivial(any(np.any(np.abs(y - x) > 0.1 * np.abs(x)) for x, y in zip(first, second)))
    for f, want, what in zip(fs, second, ("synchrotron", "Thomson", "SSC")):
        close(val(f(args), "erg s-1"), want, 1e-5, what + " losses after a change of " + c["change"], floor=1e-12, atol=1e-200)


def strat_live():
    return st.fixed_dictionaries(dict(b=gen.blob(n_e=gen.dist(shapes=("PowerLaw", "BrokenPowerLaw"), gmin=(20, 1e3), decades=(1, 3), k=gen.logu(1e-2, 1e6)), sizes=(8, 15)), steps=st.integers(2, 4), x=gen.lin(0.02, 0.2), heun=st.booleans(), which=gen.pick("ssc", "thomson"), acc=st.booleans()))


def fn_live(c, ctx):
    """during an evolution the losses on the photons of the region follow its changing particles: each step moves the nodes by the rates a region holding the current distribution has; non-trivial: the rates change by more than 1 % on the way"""
    b = c["b"]
    blob = build.blob(b)
    d = b["n_e"]
    g0 = ref.grid(d, b["gamma_e_size"])
    ssc = SynchrotronSelfCompton(blob)
    f = ssc_loss(ssc) if c["which"] == "ssc" else ssc_thomson_limit_loss(ssc)

    def fresh(n_e, g):
        s = SynchrotronSelfCompton(build.blob(b, n_e=n_e))
        r = s.electron_energy_loss_rate(g) if c["which"] == "ssc" else s.electron_energy_loss_rate_thomson(g)
        return -val(r, "erg s-1") / evo.MEC2

    f0 = fresh(build.dist(d), g0)
    if not np.all(np.abs(f0) > 0):
        return
    # the fastest node loses a fraction x per step; acceleration scales the rest
    dt = c["x"] / np.max(np.abs(f0 / g0))
    if not np.isfinite(dt) or dt > 1e40:
        return
    acc = 0.3 * c["x"] / dt if c["acc"] else 0.0
    E = {"l": f}
    if acc:
        E["a"] = fermi_acceleration(1 / acc * u.s)
    hist = []
    TimeEvolution(blob, c["steps"] * dt * u.s, E, step_duration=dt * u.s, merge_bins_closer_than=None, method="heun" if c["heun"] else "euler",
                  distribution_change_callback=lambda h: hist.append((np.array(h.gamma), h.density.to_value("cm-3"), val(h.en_chg_rates["l"], "erg s-1") / evo.MEC2, blob.n_e, h.total_time.to_value("s")))).evaluate()
    hist = hist[: c["steps"]]
    g, n_e, rate = g0, build.dist(d), f0
    rel0 = np.max(np.abs(f0 / g0))
    for k, (g1, n1, r1, ne1, t1) in enumerate(hist):
        if not c["heun"]:
            close(g1, g + dt * (rate + acc * g), 1e-6, "Lorentz factors after step %d" % k)
        else:
            ensure(np.all(np.abs(g1 / g - 1) < 1.3 * c["x"]), "size of step %d" % k)
        want = fresh(InterpolatedDistribution(g1, n1 * u.Unit("cm-3"), interpolator=type_pchip()), g1)
        close(r1, want, 1e-6, "losses reported after step %d" % k)
        g, n_e, rate = g1, ne1, want
    ctx.label(c["which"] + (" heun" if c["heun"] else ""))
    ctx.nontrivial(abs(np.max(np.abs(rate / g)) / rel0 - 1) > 0.01)


def type_pchip():
    from scipy.interpolate import PchipInterpolator

    return PchipInterpolator


SUBS = [
    Sub("rates", fn, strat, quick=300, thorough=10000, shards=4),
    Sub("live", fn_live, strat_live, quick=120, thorough=4000, shards=6),
]
