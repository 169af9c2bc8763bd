"""Time evolution: histories, bookkeeping and invalid requests"""
import numpy as np
import astropy.units as u
from hypothesis import strategies as st

from agnpy.spectra import PowerLaw
from agnpy.time_evolution import TimeEvolution
from vlib import build, evo, gen, ref
from vlib.cmp import close, ensure, raises, val
from vlib.runner import Sub

MODES = {"fixed": {}, "fixed_heun": dict(method="heun"), "auto": {}, "auto_euler": dict(optimize_recalculating_slow_rates=False), "auto_heun": dict(optimize_recalculating_slow_rates=False, method="heun")}


def base(sizes=(5, 20)):
    return dict(
        b=gen.blob(n_e=gen.dist(shapes=("PowerLaw", "BrokenPowerLaw", "LogParabola"), gmin=(5, 1e4), decades=(0.5, 4), k=gen.logu(1e-6, 1e6)), sizes=sizes),
        e=st.lists(evo.energy_term(), min_size=1, max_size=3), rel=st.lists(evo.rel_term(), max_size=2), ab=st.lists(evo.abs_term(), max_size=2), dt=gen.logu(1e-3, 1e6))


class Setup:
    def __init__(self, c):
        self.c, d = c, c["b"]["n_e"]
        self.g0 = ref.grid(d, c["b"]["gamma_e_size"])
        self.n0 = ref.n_of(d, self.g0)
        self.E = {"e%d" % i: evo.efun(t, c["dt"], self.g0) for i, t in enumerate(c["e"])}
        self.R = {"r%d" % i: evo.rfun(t, c["dt"], self.g0) for i, t in enumerate(c["rel"])}
        self.A = {"a%d" % i: evo.afun(t, c["dt"], self.g0, self.n0) for i, t in enumerate(c["ab"])}

    def fine(self, steps, heun=False, gap=1e-3, frac=None):
        """the steps are valid and keep the nodes apart (according to the model)"""
        c, d = self.c, self.c["b"]["n_e"]
        if "gamma_b" in d and np.any(np.abs(self.g0 / d["gamma_b"] - 1) < 1e-9):
            return False
        if np.any(self.n0 <= 1e-200) or self.n0.max() / self.n0.min() > 1e200:
            return False
        m = evo.Model(self.g0, self.n0, frac)
        rel, ab = ([c["rel"]], [c["ab"]]) if frac is None else ([c["rel"], []], [[], c["ab"]])
        try:
            for _ in range(steps):
                m.step(c["e"], rel, ab, c["dt"], c["dt"], heun)
        except evo.Invalid:
            return False
        return m.separated(gap)


def same(a, b, what, rtol=1e-9, frac=True):
    close(np.asarray(a.gamma), np.asarray(b.gamma), rtol, what + ": Lorentz factors")
    close(val(a.density, "cm-3"), val(b.density, "cm-3"), rtol, what + ": densities")
    if frac:
        close(np.asarray(a.density_subgroups), np.asarray(b.density_subgroups), rtol, what + ": fractions", atol=1e-12)


def strat_split():
    return st.fixed_dictionaries(dict(base(), k1=st.integers(1, 4), k2=st.integers(1, 4), heun=st.booleans(), M=gen.pick(1, 1, 2), merge=gen.pick("default", None)))


def fn_split(c, ctx):
    """an evolution in fixed steps interrupted and resumed from the distribution left in the region, on the nodes reached, ends in the same state as an uninterrupted one, with and without groups of particles; arrays given by the caller are left alone; non-trivial: something changed"""
    s = Setup(c)
    n = c["k1"] + c["k2"]
    f = None
    if c["M"] == 2:
        f = np.array([np.linspace(0.2, 0.7, len(s.g0)), 1 - np.linspace(0.2, 0.7, len(s.g0))])
    if not s.fine(n, c["heun"], 4e-3, f):
        return
    kw = dict(step_duration=c["dt"] * u.s, method="heun" if c["heun"] else "euler")
    if c["merge"] is None:
        kw["merge_bins_closer_than"] = None
    g = s.g0.copy()
    first = {}
    if c["M"] == 2:
        kw["subgroups"] = [list(s.E) + list(s.R), list(s.E) + list(s.A)]
        first = dict(subgroups_initial_density=f)
        fcopy = f.copy()
    ask = lambda blob, k, **kk: TimeEvolution(blob, k * c["dt"] * u.s, s.E, s.R or None, s.A or None, **dict(kw, **kk))  # noqa: E731
    run = lambda *a, **kk: ask(*a, **kk).evaluate()  # noqa: E731
    b1 = build.blob(c["b"])
    request = ask(b1, n, initial_gamma_array=g, **first)
    whole = request.evaluate()
    ensure(np.array_equal(g, s.g0) and (c["M"] == 1 or np.array_equal(f, fcopy)), "an array given by the caller was modified")
    b2 = build.blob(c["b"])
    r1 = run(b2, c["k1"], initial_gamma_array=g, **first)
    second = dict(subgroups_initial_density=np.asarray(r1.density_subgroups)) if c["M"] == 2 else {}
    r2 = run(b2, c["k2"], initial_gamma_array=np.asarray(r1.gamma), **second)
    same(r2, whole, "resumed evolution", 1e-6)
    close(val(b1.n_e(np.asarray(whole.gamma)), "cm-3"), val(b2.n_e(np.asarray(whole.gamma)) if np.array_equal(whole.gamma, r2.gamma) else r2.density, "cm-3"), 1e-5, "distributions held by the regions")
    # the same request, once the region is what it was
    b1.n_e = build.dist(c["b"]["n_e"])
    same(request.evaluate(), whole, "the same evolution evaluated again")
    ctx.nontrivial(np.max(np.abs(np.asarray(whole.gamma) / s.g0 - 1)) > 1e-3)


def strat_drain():
    return st.fixed_dictionaries(dict(
        b=gen.blob(n_e=gen.dist(shapes=("PowerLaw", "BrokenPowerLaw", "LogParabola"), gmin=(10, 1e4), decades=(0.7, 3), k=gen.logu(1e-6, 1e4)), sizes=(8, 25)),
        x=gen.lin(0.02, 0.9), sign=gen.pick(1, -1), rel=gen.lin(-0.5, 1), T=gen.logu(1, 1e7), creep=gen.pick(0.03, 0.1, 0.5), steps=st.integers(1, 12), mode=gen.pick(*MODES), M=st.integers(2, 3), w=st.lists(gen.lin(0.05, 1), min_size=75, max_size=75)))


def fn_drain(c, ctx):
    """groups of particles treated alike, each with a share of its own at every Lorentz factor, drift out of the bounds while empty nodes enter at the other end: the particles that stay keep the shares they had; non-trivial: nodes left, and shares differ"""
    d, T = c["b"]["n_e"], c["T"]
    lo, hi = d["gamma_min"], d["gamma_max"]
    g0 = ref.grid(d, c["b"]["gamma_e_size"])
    n0 = ref.n_of(d, g0)
    if "gamma_b" in d and np.any(np.abs(g0 / d["gamma_b"] - 1) < 1e-9) or n0.min() < 1e-100:
        return
    f = np.array(c["w"]).reshape(3, 25)[: c["M"], : len(g0)]
    f = f / f.sum(axis=0)
    x = c["x"] * np.log(g0[1] / g0[0]) * 4
    a = c["sign"] * x / T
    kw = dict(MODES[c["mode"]])
    if c["mode"].startswith("fixed"):
        if x / c["steps"] > 0.5:
            return
        kw["step_duration"] = T / c["steps"] * u.s
    else:
        kw.update(max_energy_change_per_interval=0.05, max_density_change_per_interval=1, max_injection_per_interval=1e300)
    names = [["e", "r"] for _ in range(c["M"])]
    left = []

    def cb(h):
        # nodes entering or leaving
        left.append(len(h.gamma))

    r = TimeEvolution(build.blob(c["b"]), T * u.s, {"e": lambda s: evo.MEC2 * s.gamma * a * u.Unit("erg s-1")}, {"r": lambda s: np.full(s.gamma.shape, c["rel"] / T) / u.s}, gamma_bounds=(lo, hi), max_bin_creep_from_bounds=c["creep"],
                      initial_gamma_array=np.clip(g0, lo, hi), merge_bins_closer_than=None, subgroups=names, subgroups_initial_density=f, distribution_change_callback=cb, **kw).evaluate()
    g, n, fr = np.asarray(r.gamma), val(r.density, "cm-3"), np.asarray(r.density_subgroups)
    ctx.label(c["mode"])
    ensure(fr.shape == (c["M"], len(g)) and np.all(np.abs(fr.sum(axis=0) - 1) < 1e-9), "shares of shape %r that add up to %r for %d nodes" % (fr.shape, fr.sum(axis=0), len(g)))
    # original nodes still there: all have moved by the same factor
    have = np.flatnonzero(n > 0)
    if len(have) == 0:
        return
    k = len(have)
    # those that stay are the last (or first) k ones
    src = np.arange(len(g0))[-k:] if c["sign"] < 0 else np.arange(len(g0))[:k]
    move = g[have] / g0[src]
    close(move, np.full(k, move[0]), 1e-6, "displacement of the nodes")
    ensure(x < 0.05 or (move[0] - 1) * c["sign"] > 0, "nodes moved by %g" % move[0])
    if len(g0) - k:
        ctx.nontrivial()
    close(fr[:, have], f[:, src], 1e-6, "shares of the groups at the nodes which stay", atol=1e-9)
    close(n[have] / n[have][0], n0[src] / n0[src][0], 1e-6, "relative densities of the nodes which stay")


def strat_hist():
    return st.fixed_dictionaries(dict(base(), K=gen.lin(1, 10), mode=gen.pick(*MODES), form=gen.pick("dict", "list", "tuple", "single"), unit=gen.pick("s", "h")))


def fn_hist(c, ctx):
    """at every step the rate functions are given the state the region is in, the callback is called once with the state just reached, keyed like the functions, and the last call carries what is returned; results handed out earlier do not change afterwards; functions given as dict, list, tuple or alone are equivalent; non-trivial: several steps"""
    s = Setup(c)
    fixed = c["mode"].startswith("fixed")
    k = int(np.ceil(c["K"]))
    if not s.fine(k, "heun" in c["mode"], 1e-4):
        return
    if c["form"] == "single":
        s.E = dict(list(s.E.items())[:1])
        s.R, s.A = dict(list(s.R.items())[:1]), dict(list(s.A.items())[:1])
    blob, hist, snap, bad = build.blob(c["b"]), [], [], []

    def spy(f):
        def g(a):
            if len(a.densities) == 0:  # no rate needs to be calculated again
                pass
            elif len(a.gamma) in (len(a.densities), 2 * len(a.densities)):
                x = np.asarray(a.gamma)[:: len(a.gamma) // len(a.densities)]
                have = blob.n_e(x).to_value("cm-3")
                want = a.densities.to_value("cm-3")
                # the very edges may be lost by rounding
                diff = np.abs(have / np.where(want > 0, want, 1) - 1)[1:-1]
                if diff.size and not np.max(diff) < 1e-6:
                    bad.append("functions see densities %r where the region holds %r" % (want[:4], have[:4]))
                if a.density_subgroups.shape[-1] != len(a.densities):
                    bad.append("fractions of shape %r for %d densities" % (a.density_subgroups.shape, len(a.densities)))
            else:
                bad.append("%d Lorentz factors for %d densities" % (len(a.gamma), len(a.densities)))
            return f(a)
        return g

    def cb(h):
        hist.append(h)
        snap.append((h.total_time.to_value("s"), np.array(h.gamma), h.density.to_value("cm-3").copy(), {k_: v.copy() for k_, v in h.en_chg_rates.items()}))
        have = blob.n_e(np.asarray(h.gamma)).to_value("cm-3")[1:-1]
        if not np.allclose(have, h.density.to_value("cm-3")[1:-1], rtol=1e-6, atol=0):
            bad.append("at the callback the region does not hold the reported densities")

    E, R, A = {k_: spy(f) for k_, f in s.E.items()}, dict(s.R), dict(s.A)
    form = {"dict": lambda x: x, "list": lambda x: list(x.values()), "tuple": lambda x: tuple(x.values()), "single": lambda x: list(x.values())[0] if x else None}[c["form"]]
    T = c["K"] * c["dt"]
    kw = dict(MODES[c["mode"]])
    if fixed:
        kw["step_duration"] = (c["dt"] * u.s).to(c["unit"])
    else:
        kw.update(max_energy_change_per_interval=0.05, max_density_change_per_interval=0.5, max_injection_per_interval=1e300)
        worst = sum(abs(t["x"]) for t in c["e"])
        if worst * c["K"] > 4 or any(t["q"] < 0 and t["x"] > 0 for t in c["e"]) and worst * c["K"] > 1:
            return
    r = TimeEvolution(blob, T * u.s, form(E), form(R) if R else None, form(A) if A else None, merge_bins_closer_than=None, distribution_change_callback=cb, **kw).evaluate()
    ctx.label(c["mode"])
    ensure(not bad, bad[0] if bad else "")
    ensure(len(hist) > 0, "the callback was never called")
    ctx.nontrivial(len(hist) > 1)
    t = np.array([0.0] + [x[0] for x in snap])
    if fixed:
        want = np.append(np.arange(1, k) * c["dt"], T)
        if len(snap) == k + 1:  # a step of rounding size
            want = np.append(want, T)
        close(t[1:], want, 1e-9, "times of the calls")
    ensure(np.all(np.diff(t) >= 0) and abs(t[-1] / T - 1) < 1e-9, "times of the calls %r" % t)
    for h, (tt, g, n, e) in zip(hist, snap):
        ensure(h.total_time.to_value("s") == tt and np.array_equal(h.gamma, g) and np.array_equal(h.density.to_value("cm-3"), n) and all(np.array_equal(h.en_chg_rates[k_], e[k_]) for k_ in e), "a result handed to the callback changed afterwards")
        names = (E, R, A) if c["form"] == "dict" else [dict((str(f), f) for f in d.values()) for d in (E, R, A)]
        for d, got, what in zip(names, (h.en_chg_rates, h.rel_inj_rates, h.abs_inj_rates), ("energy change", "relative injection", "absolute injection")):
            ensure(set(got) == set(d), "%s rates of %r handed to the callback instead of %r" % (what, sorted(got), sorted(d)))
            for v in got.values():
                ensure(np.shape(v) == np.shape(g), "%s rates of the wrong shape" % what)
    last = hist[-1]
    same(r, last, "returned state and last call")
    for a, b in ((r.en_chg_rates, last.en_chg_rates), (r.rel_inj_rates, last.rel_inj_rates), (r.abs_inj_rates, last.abs_inj_rates)):
        ensure(set(a) == set(b) and all(np.array_equal(a[k_], b[k_]) for k_ in a), "returned rates differ from those of the last call")
    if fixed:  # rates belong to the state they come with
        st_ = Setup(c)
        for h in hist:
            for got, terms, norm, unit in ((h.en_chg_rates, c["e"], lambda t_: evo.MEC2 * np.asarray(h.gamma), "erg s-1"), (h.rel_inj_rates, c["rel"], lambda t_: 1.0, "s-1"), (h.abs_inj_rates, c["ab"], lambda t_: st_.n0[0] if t_["at"] == "min" else st_.n0[-1], "cm-3 s-1")):
                for v, t_ in zip(got.values(), terms):
                    close(val(v, unit), norm(t_) * evo.power(t_, c["dt"], st_.g0)(np.asarray(h.gamma)), 1e-9, "rate in %s handed to the callback" % unit)


def strat_rel():
    return st.fixed_dictionaries(dict(base(), K=st.integers(1, 5), mode=gen.pick("fixed", "fixed_heun"), which=gen.pick("sum", "cancel", "groups", "linear", "time", "density_dependent", "no_injection", "explicit_grid"), s=gen.logu(0.1, 10)))


def fn_rel(c, ctx):
    """adding up functions beforehand, splitting particles into groups treated alike, writing a relative injection as an absolute one proportional to the density, giving the default grid explicitly or measuring time in other units change nothing; opposite energy changes cancel; the evolution is linear in the density; non-trivial: always"""
    s = Setup(c)
    if c["which"] == "cancel":
        s.c = c = dict(c, e=c["e"][:1] + [dict(c["e"][0], x=-c["e"][0]["x"])])
        s = Setup(c)
    if c["which"] == "groups":  # shares of particles injected in absolute terms would not stay alike
        s.c = c = dict(c, ab=[])
        s = Setup(c)
    if not s.fine(c["K"], "heun" in c["mode"], 1e-4):
        return
    kw0 = dict(MODES[c["mode"]], step_duration=c["dt"] * u.s, merge_bins_closer_than=None)
    T = c["K"] * c["dt"]

    def run(E, R, A, b=c["b"], T=T, **kw):
        return TimeEvolution(build.blob(b), T * u.s, E, R or None, A or None, **dict(kw0, **kw)).evaluate()

    r = run(s.E, s.R, s.A)
    ctx.label(c["which"])
    ctx.nontrivial()
    add = lambda d, unit: (lambda a: sum((f(a).to(unit) for f in d.values()), 0 * u.Unit(unit)))  # noqa: E731
    w = c["which"]
    if w == "sum":
        r2 = run(add(s.E, "erg s-1"), {"R": add(s.R, "s-1")} if s.R else None, [add(s.A, "cm-3 s-1")] if s.A else None)
        same(r2, r, "functions added up beforehand")
    elif w == "cancel":
        close(np.asarray(r.gamma), s.g0, 1e-9, "Lorentz factors with opposite energy changes")
    elif w == "groups":
        names = list(s.E) + list(s.R)
        f = np.array([np.full(len(s.g0), 0.3), np.full(len(s.g0), 0.7)])
        r2 = run(s.E, s.R, None, subgroups=[names, names], subgroups_initial_density=f, initial_gamma_array=s.g0)
        same(r2, r, "two groups treated alike", 1e-9, frac=False)
        close(np.asarray(r2.density_subgroups), f, 1e-9, "fractions of groups treated alike")
    elif w == "linear":
        A2 = {k: (lambda a, f=f: c["s"] * f(a)) for k, f in s.A.items()}
        r2 = run(s.E, s.R, A2, b=dict(c["b"], n_e=dict(c["b"]["n_e"], k=c["b"]["n_e"]["k"] * c["s"])))
        close(np.asarray(r2.gamma), np.asarray(r.gamma), 1e-12, "Lorentz factors with another density")
        close(val(r2.density, "cm-3"), c["s"] * val(r.density, "cm-3"), 1e-8, "densities scaled")
    elif w == "time":
        sc = lambda d: {k: (lambda a, f=f: f(a) / c["s"]) for k, f in d.items()}  # noqa: E731
        r2 = run(sc(s.E), sc(s.R), sc(s.A), T=T * c["s"], step_duration=c["dt"] * c["s"] * u.s)
        same(r2, r, "slower by %g for a time longer by as much" % c["s"], 1e-8)
    elif w == "density_dependent":
        A2 = dict(s.A)
        for k, f in s.R.items():
            A2["as_" + k] = lambda a, f=f: f(a) * a.densities
        same(run(s.E, None, A2), r, "relative injection written as an absolute one", 1e-8)
    elif w == "no_injection":
        z = {"zr": lambda a: np.zeros(a.gamma.shape) / u.s}
        za = {"za": lambda a: np.zeros(a.gamma.shape) * u.Unit("cm-3 s-1")}
        same(run(s.E, dict(s.R, **z), dict(s.A, **za)), r, "vanishing injections added", 1e-12)
    else:
        same(run(s.E, s.R, s.A, initial_gamma_array=s.g0), r, "grid of the region given explicitly", 1e-9)


def strat_repl():
    return st.fixed_dictionaries(dict(b=gen.blob(n_e=gen.dist(shapes=("PowerLaw",), gmin=(10, 1e4), decades=(1, 3), k=gen.logu(1e-6, 1e4)), sizes=(8, 25)), x=gen.lin(0.3, 3), sign=gen.pick(1, -1), inj=gen.logu(1e-2, 1e3), T=gen.logu(1, 1e7), creep=gen.pick(0.03, 0.1, 0.2), mode=gen.pick("auto", "fixed", "auto_heun", "fixed_heun"),
                                      merge=gen.pick("default", None)))


def fn_repl(c, ctx):
    """with bounds, particles drift out of one end, new nodes enter at the other with no particles and fill up by injection: the density follows the exact solution on old and new nodes alike, nodes stay within the bounds and the entrance is never left emptier than requested; non-trivial: new nodes have entered"""
    b, d, T = c["b"], c["b"]["n_e"], c["T"]
    lo, hi = d["gamma_min"], d["gamma_max"]
    if c["x"] > 0.6 * np.log(hi / lo):
        return
    a = c["sign"] * c["x"] / T
    n0 = lambda g: ref.n_of(d, g)  # noqa: E731
    S = c["inj"] * float(n0(np.sqrt(lo * hi))) / T
    kw = dict(MODES[c["mode"]])
    h = 0.01
    if c["mode"].startswith("fixed"):
        kw["step_duration"] = T / np.ceil(c["x"] / h) * u.s
    else:
        kw.update(max_energy_change_per_interval=h, max_density_change_per_interval=1, max_injection_per_interval=1e300)
    if c["merge"] is None:
        kw["merge_bins_closer_than"] = None
    r = TimeEvolution(build.blob(b), T * u.s, lambda s: evo.MEC2 * s.gamma * a * u.Unit("erg s-1"), abs_injection_functions=lambda s: np.full(s.gamma.shape, S) * u.Unit("cm-3 s-1"), gamma_bounds=(lo, hi), max_bin_creep_from_bounds=c["creep"], **kw).evaluate()
    g, n = np.asarray(r.gamma), val(r.density, "cm-3")
    ensure(np.all(np.diff(g) > 0) and g[0] >= lo * (1 - 1e-12) and g[-1] <= hi * (1 + 1e-12), "nodes %r outside the bounds (%g, %g) or out of order" % (g, lo, hi))
    gap = np.log10(g[0] / lo) if a > 0 else np.log10(hi / g[-1])
    ensure(gap < c["creep"] + 1.2 * h, "no node within %g dex of the bound, where particles enter (creep %g)" % (gap, c["creep"]))
    ctx.label(c["mode"])
    g0 = g * np.exp(-a * T)
    ent = np.abs(np.log(g / (lo if a > 0 else hi)))  # |a| times the time since it entered
    edge = c["x"] - ent
    new, old = edge > 0.06, edge < -0.06
    ctx.nontrivial(np.count_nonzero(new) > 1)
    old &= (g0 > lo * 1.05) & (g0 < hi / 1.05)
    tn = ent / abs(a)
    f = lambda t: S / a * (1 - np.exp(-a * t))  # injected since t, thinned by the expansion of the intervals  # noqa: E731
    close(n[new], f(tn[new]), 0.03, "densities of the nodes that entered at the bound", atol=S * T * 0.015)
    close(n[old], n0(np.where(old, g0, np.sqrt(lo * hi)))[old] * np.exp(-a * T) + f(T), 0.04 + 0.005 * d["p"], "densities of the nodes present from the beginning", atol=S * T * 0.01)


def fn_err(c, ctx):
    """requests that contradict themselves are refused with ValueError; evolutions without particles leave an empty distribution with the bounds reached and the grid of the region one-dimensional; no time elapsed leaves the densities alone; non-trivial: always"""
    ctx.nontrivial()
    ctx.label(c["what"])
    blob = build.blob(c["b"])
    d = c["b"]["n_e"]
    g = ref.grid(d, c["b"]["gamma_e_size"])
    e = {"e": lambda a: -0.01 * evo.MEC2 * a.gamma * u.Unit("erg s-1")}
    q = {"q": lambda a: -0.01 * np.ones_like(a.gamma) / u.s}
    TE = lambda **kw: TimeEvolution(blob, 3 * u.s, kw.pop("energy_change_functions", e), **kw)  # noqa: E731
    w, x = c["what"], c["x"]
    if w == "step":
        raises(ValueError, lambda: TE(step_duration=x), "a bare number as step")
        raises(ValueError, lambda: TE(step_duration="automatic"), "an unknown step")
    elif w == "duplicates":
        raises(ValueError, lambda: TE(rel_injection_functions={"e": q["q"]}), "the same key twice (energy and relative)")
        raises(ValueError, lambda: TE(abs_injection_functions={"e": q["q"]}), "the same key twice (energy and absolute)")
        raises(ValueError, lambda: TE(rel_injection_functions=q, abs_injection_functions=q), "the same key twice (relative and absolute)")
    elif w == "grid":
        raises(ValueError, lambda: TE(initial_gamma_array=g[::-1].copy()), "a decreasing grid")
        raises(ValueError, lambda: TE(initial_gamma_array=np.sort(np.append(g, g[1]))), "a grid with repeated values")
        raises(ValueError, lambda: TE(initial_gamma_array=g, gamma_bounds=(g[0] * (1 + x), g[-1])), "a grid below the bounds")
        raises(ValueError, lambda: TE(initial_gamma_array=g, gamma_bounds=(g[0], g[-1] / (1 + x))), "a grid above the bounds")
        TE(initial_gamma_array=g, gamma_bounds=(g[0], g[-1]))
    elif w == "method":
        raises(ValueError, lambda: TE(method="rk4"), "an unknown method")
        raises(ValueError, lambda: TE(method="heun"), "Heun with stale rates")
        raises(ValueError, lambda: TE(method="heun", optimize_recalculating_slow_rates=True), "Heun with stale rates")
        raises(ValueError, lambda: TE(step_duration=1 * u.s, optimize_recalculating_slow_rates=True), "stale rates with fixed steps")
        TE(method="HEUN", step_duration=1 * u.s).evaluate()
    elif w == "groups":
        f = np.array([np.full(len(g), 0.4), np.full(len(g), 0.6)])
        gr = [["e", "q"], ["e"]]
        ok = dict(rel_injection_functions=q, subgroups=gr, subgroups_initial_density=f, initial_gamma_array=g)
        TE(**ok)
        raises(ValueError, lambda: TE(**dict(ok, subgroups=[["e", "nope"], ["q"]])), "a group with an unknown function")
        raises(ValueError, lambda: TE(**dict(ok, subgroups_initial_density=f * (1 + max(x, 1e-3)))), "fractions that do not add up to one")
        raises(ValueError, lambda: TE(**dict(ok, subgroups=None)), "fractions without groups")
        raises(ValueError, lambda: TE(**dict(ok, initial_gamma_array=None)), "fractions without a grid")
        raises(ValueError, lambda: TE(**dict(ok, subgroups_initial_density=f[:, 1:])), "fractions for another grid")
    elif w == "unphysical":
        raises(ValueError, TE(energy_change_functions=lambda a: -(1 + x) * evo.MEC2 * a.gamma * u.Unit("erg s-1"), step_duration=1 * u.s).evaluate, "energies turning negative")
        raises(ValueError, TE(rel_injection_functions=lambda a: -(1 + max(x, 0.02)) * np.ones_like(a.gamma) / u.s, step_duration=1 * u.s).evaluate, "densities turning negative")
        blob.n_e = PowerLaw(k=0 * u.Unit("cm-3"), gamma_min=d["gamma_min"], gamma_max=d["gamma_max"])
        raises(ValueError, TE(abs_injection_functions=lambda a: -x * np.ones_like(a.gamma) * u.Unit("cm-3 s-1")).evaluate, "particles escaping where there are none")
    elif w == "empty":
        blob.n_e = PowerLaw(k=0 * u.Unit("cm-3"), gamma_min=d["gamma_min"], gamma_max=d["gamma_max"])
        r = TE(step_duration=1 * u.s, merge_bins_closer_than=None).evaluate()
        close(np.asarray(r.gamma), g * 0.99**3, 1e-9, "Lorentz factors of an empty distribution")
        ensure(np.all(val(r.density, "cm-3") == 0), "particles out of nothing")
        close(np.asarray([float(blob.n_e.gamma_min), float(blob.n_e.gamma_max)]), np.asarray(r.gamma)[[0, -1]], 1e-9, "bounds of the empty distribution left")
        ensure(np.ndim(blob.gamma_e) == 1 and len(blob.gamma_e) == c["b"]["gamma_e_size"], "grid of the region")
        ensure(np.all(val(blob.n_e(g), "cm-3") == 0), "the distribution left is not empty")
        r = TE(step_duration=1 * u.s, abs_injection_functions=lambda a: x * np.ones_like(a.gamma) * u.Unit("cm-3 s-1"), merge_bins_closer_than=None, initial_gamma_array=g).evaluate()
        want = x * (1 + 1 / 0.99 + 1 / 0.99**2)
        close(val(r.density, "cm-3"), np.full(len(g), want), 1e-8, "densities injected into an empty region")
    else:
        n = val(blob.n_e(g), "cm-3")
        hist = []
        r = TimeEvolution(blob, 0 * u.s, e, distribution_change_callback=hist.append).evaluate()
        close(np.asarray(r.gamma), g, 1e-12, "Lorentz factors after no time")
        close(val(r.density, "cm-3"), n, 1e-12, "densities after no time")
        ensure(not hist and val(r.total_time, "s") == 0, "steps were made in no time")
        close(val(blob.n_e(g), "cm-3"), n, 1e-12, "distribution of the region after no time")


def strat_err():
    return st.fixed_dictionaries(dict(b=gen.blob(n_e=gen.dist(shapes=("PowerLaw",), gmin=(5, 1e4), decades=(0.5, 4), k=gen.logu(1e-6, 1e6)), sizes=(4, 20)), what=gen.pick("step", "duplicates", "grid", "method", "groups", "unphysical", "empty", "nothing"), x=gen.logu(1e-4, 10)))


SUBS = [
    Sub("split", fn_split, strat_split, quick=200, thorough=8000, shards=4),
    Sub("drain", fn_drain, strat_drain, quick=160, thorough=5000, shards=8),
    Sub("history", fn_hist, strat_hist, quick=300, thorough=10000, shards=6),
    Sub("relations", fn_rel, strat_rel, quick=300, thorough=10000, shards=5),
    Sub("replenish", fn_repl, strat_repl, quick=80, thorough=3000, shards=8),
    Sub("requests", fn_err, strat_err, quick=200, thorough=4000, shards=2),
]
