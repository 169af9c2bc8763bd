"""Fit models evaluate the SED of their scenario"""
import numpy as np
import astropy.units as u
from hypothesis import strategies as st

from agnpy.fit import ExternalComptonModel, SynchrotronSelfComptonModel
from vlib import fitm, gen, ref
from vlib.cmp import close, close_noisy, ensure, val
from vlib.runner import Sub

EV = (1 * u.eV).to_value("erg")


def make(c, backend):
    n = fitm.n_e(c["s"])
    if c.get("targets") is None:
        m = SynchrotronSelfComptonModel(n, ssa=c["ssa"], backend=backend)
    else:
        m = ExternalComptonModel(n, list(c["targets"]), ssa=c["ssa"], backend=backend)
    for k in fitm.names(c["s"]["shape"], c.get("targets")):
        fitm.put(m, backend, k, dict(c["p"], **c["s"]["pars"])[k])
    return m


def energies(c):
    return np.array(sorted(c["E"]))


def fn(c, ctx):
    """the gammapy model is the sum of the components over E^2 and the sherpa one is that sum, for every shape, layout and unit of energy; both leave their inputs alone and follow changes of their parameters; non-trivial: two components each contribute more than 1 %"""
    t = c.get("targets")
    if not fitm.fine(c["s"], c["p"] if t else None):
        return
    if abs(c["s"]["pars"]["log10_gamma_max"] - c["s"]["pars"]["log10_gamma_min"]) < 0.3:
        return
    E = energies(c)
    nu = E * EV / ref.H
    cache = {}

    def model(sh):
        if sh not in cache:
            cache[sh] = fitm.sed(nu, c["s"], c["p"], t, c["ssa"], sh)
        return sum(cache[sh].values())

    want = model(0.0)
    if not np.all(np.isfinite(want)):
        return
    parts = np.array(list(cache[0.0].values()))
    ctx.nontrivial(((parts > 0.01 * want).any(axis=1)).sum() > 1)
    ctx.label(c["s"]["shape"])
    ctx.label("+".join(t) if t else "ssc")
    tol = dict(rtol=5e-5, floor=1e-12, atol=1e-150)
    g = make(c, "gammapy")
    shape = dict(flat=(-1,), gammapy=(-1, 1, 1), row=(1, -1), scalar=())[c["layout"]]
    q = (E if c["layout"] != "scalar" else E[:1]).reshape(shape) * u.eV
    q = q.to(c["unit"])
    keep = q.copy()
    out = g(q)
    ensure(np.array_equal(q.value, keep.value) and q.unit == keep.unit, "the energies were modified")
    ensure(np.shape(out) == q.shape, "shape %s instead of %s" % (np.shape(out), q.shape))
    m = len(q.ravel()) if c["layout"] != "scalar" else 1
    close_noisy(val(out, "cm-2 eV-1 s-1").ravel() * E[:m] ** 2 * EV, lambda sh: model(sh)[:m], what="gammapy model", **tol)
    s = make(c, "sherpa")
    x = E.copy()
    got = s(x)
    ensure(np.array_equal(x, E), "the energies were modified")
    close_noisy(val(got, "erg cm-2 s-1") if isinstance(got, u.Quantity) else np.asarray(got), model, what="sherpa model", **tol)
    p = [par.val for par in s.pars]
    keep = list(p)
    again = s.calc(p, x)
    ensure(p == keep, "the list of parameters was modified")
    ensure(np.array_equal(np.asarray(again), np.asarray(got)), "calc differs from the call")
    if t is None:
        # change one parameter, in both
        k = c["change"]
        c2 = dict(c, p=dict(c["p"], **{k: c["new"][k]}))
        for mod, b in ((g, "gammapy"), (s, "sherpa")):
            fitm.put(mod, b, k, c2["p"][k])
        if c["flip"]:
            g.ssa = s.ssa = not c["ssa"]
        w2 = sum(fitm.sed(nu, c["s"], c2["p"], t, c["ssa"] != c["flip"]).values())
        close(val(g(E * u.eV), "cm-2 eV-1 s-1") * E**2 * EV, w2, what="gammapy model after a change", **tol)
        close(np.asarray(s(E.copy())), w2, what="sherpa model after a change", **tol)


def base(n):
    return dict(s=fitm.spectrum(), p=fitm.pars(), ssa=st.booleans(), E=st.lists(gen.logu(1e-6, 1e14), min_size=1, max_size=n, unique=True), layout=gen.pick("flat", "gammapy", "row", "scalar"), unit=gen.pick("eV", "TeV", "erg"))


def strat_ssc():
    return st.fixed_dictionaries(dict(base(6), new=fitm.pars(), change=gen.pick(*fitm.REGION), flip=st.booleans()))


def strat_ec():
    return st.fixed_dictionaries(dict(base(3), targets=gen.pick(*fitm.TARGETS)))


@st.composite
def strat_compact(draw):
    """dense and compact regions, faint targets: self-absorbed synchrotron photons scatter"""
    c = draw(strat_ec())
    s, p = c["s"], c["p"]
    p.update(log10_B=draw(gen.lin(-1.5, 2)), t_var=draw(gen.logu(10, 3e3)), delta_D=draw(gen.lin(1, 12)), log10_L_disk=draw(gen.lin(42, 43)), z=draw(gen.logu(1e-3, 0.5)))
    for k, lo, hi in (("log10_k", 5, 11), ("log10_norm", 1, 3), ("log10_gamma_min", 0.5, 2), ("p", 1.5, 3), ("p1", 1.5, 2.5), ("p2", 2, 4)):
        if k in s["pars"]:
            s["pars"][k] = draw(gen.lin(lo, hi))
    return dict(c, ssa=draw(gen.pick(True, True, False)), E=draw(st.lists(gen.logu(1e-3, 1e6), min_size=1, max_size=3, unique=True)))


def fn_compact(c, ctx):
    """external-Compton models of compact, dense regions in faint surroundings, where the self-absorption changes what is scattered; same comparison; non-trivial: absorption changes the self-Compton part by more than 1 % of the total"""
    fn(c, Quiet())
    nu = energies(c) * EV / ref.H
    a, b = (fitm.sed(nu, c["s"], c["p"], c["targets"], x) for x in (True, False))
    ctx.nontrivial(bool(np.any(np.abs(a["ssc"] - b["ssc"]) > 0.01 * sum(a.values()))))
    ctx.label("+".join(c["targets"]))


class Quiet:
    def nontrivial(self, *a):
        pass

    label = nontrivial


SUBS = [
    Sub("ssc", fn, strat_ssc, quick=200, thorough=6000, shards=6),
    Sub("ec", fn, strat_ec, quick=60, thorough=1500, shards=8),
    Sub("compact", fn_compact, strat_compact, quick=60, thorough=1500, shards=8),
]
