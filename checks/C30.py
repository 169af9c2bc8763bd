"""Time evolution with user-defined rates against a discrete model"""
import numpy as np
import astropy.units as u
from hypothesis import strategies as st
from scipy.interpolate import PchipInterpolator

from agnpy.time_evolution import TimeEvolution
from vlib import build, evo, gen, ref
from vlib.cmp import close, ensure, val
from vlib.runner import Sub


def strat():
    return st.fixed_dictionaries(dict(
        b=gen.blob(n_e=gen.dist(shapes=("PowerLaw", "BrokenPowerLaw", "LogParabola"), gmin=(2, 1e4), decades=(0.5, 4), k=gen.logu(1e-6, 1e6)), sizes=(5, 25)),
        e=st.lists(evo.energy_term(big=True), min_size=1, max_size=2), rel=st.lists(evo.rel_term(), max_size=2), ab=st.lists(evo.abs_term(), max_size=2),
        dt=gen.logu(1e-3, 1e6), unit=gen.pick("s", "h", "d"), steps=st.integers(1, 8), last=gen.pick(1.0, 1.0, 0.5, 0.01), heun=st.booleans(), ints=gen.pick(False, False, False, True), form=gen.pick("dict", "list"),
        groups=gen.pick(None, None, 2, 3), split=st.lists(gen.lin(0.01, 1), min_size=3, max_size=3)))


def fn(c, ctx):
    """fixed steps, no merging of bins, power-law rates: Lorentz factors, densities and fractions of each group follow the Euler (or Heun) update of a model that conserves particles in comoving intervals; invalid steps are refused with ValueError; rates and elapsed time reported are those at the end; units of the rates and form of the arguments are immaterial; non-trivial: some node moved or some density changed by more than 1e-4"""
    b, dt = c["b"], c["dt"]
    blob = build.blob(b)
    d = b["n_e"]
    g0 = ref.grid(d, b["gamma_e_size"])
    given = None
    if c["ints"]:
        given = np.unique(np.round(g0).astype(int))
        given = given[(given >= d["gamma_min"]) & (given <= d["gamma_max"])]
        if len(given) < 3:
            return
        g0 = given.astype(float)
    if "gamma_b" in d and np.any(np.abs(g0 / d["gamma_b"] - 1) < 1e-9):
        return
    n0 = ref.n_of(d, g0)
    if np.any(n0 <= 1e-250) or n0.max() / n0.min() > 1e250:
        return
    E = {"e%d" % i: evo.efun(t, dt, g0) for i, t in enumerate(c["e"])}
    Rl = {"r%d" % i: evo.rfun(t, dt, g0) for i, t in enumerate(c["rel"])}
    A = {"a%d" % i: evo.afun(t, dt, g0, n0) for i, t in enumerate(c["ab"])}
    M = c["groups"]
    kw = {}
    if M is None:
        model, rel, ab = evo.Model(g0, n0), [c["rel"]], [c["ab"]]
    else:
        frac = np.array(c["split"][:M])[:, None] * np.linspace(1, 2, M)[:, None] ** np.linspace(0, 1, len(g0))[None, :]
        frac /= frac.sum(axis=0)
        model = evo.Model(g0, n0, frac)
        # every group has all energy changes, injections are dealt out in turn
        groups = [list(E) + [k for i, k in enumerate(Rl) if i % M == m] + [k for i, k in enumerate(A) if (i + 1) % M == m] for m in range(M)]
        rel = [[t for i, t in enumerate(c["rel"]) if i % M == m] for m in range(M)]
        ab = [[t for i, t in enumerate(c["ab"]) if (i + 1) % M == m] for m in range(M)]
        kw = dict(subgroups=groups, subgroups_initial_density=frac)
        given = g0 if given is None else given
        ctx.label("groups")
    hs = [dt] * (c["steps"] - 1) + [dt * c["last"]]
    total = sum(hs)
    bad = False
    try:
        for h in hs:
            model.step(c["e"], rel, ab, dt, h, c["heun"])
    except evo.Invalid:
        bad = True
    if not bad and not model.separated():
        return  # crossing or colliding nodes are merged
    if any(np.any((n > 0) & (n < 1e-280)) for _, n in model.history):
        return
    use = (lambda x: list(x.values())) if c["form"] == "list" and M is None else (lambda x: x)
    ev = TimeEvolution(blob, (total * u.s).to(c["unit"]), use(E), use(Rl) if Rl else None, use(A) if A else None, step_duration=(dt * u.s).to(c["unit"]), initial_gamma_array=given,
                       merge_bins_closer_than=None, method="heun" if c["heun"] else "euler", **kw)
    if bad:
        ctx.label("invalid")
        try:
            ev.evaluate()
        except ValueError:
            return
        ensure(c["heun"], "a step leading to negative energies or densities was accepted")
        return
    r = ev.evaluate()
    ctx.label("heun" if c["heun"] else "euler")
    if Rl or A:
        ctx.label("injection")
    # a last step of a rounding length may be appended
    close(val(r.total_time, "s"), total, 1e-9, "elapsed time")
    close(np.asarray(r.gamma), model.g, 1e-8 + model.tol * 1e-3, "Lorentz factors")
    close(val(r.density, "cm-3"), model.total, 1e-7 + model.tol, "densities")
    if M is not None:
        with np.errstate(all="ignore"):
            close(np.asarray(r.density_subgroups), model.n / model.total, 1e-7 + model.tol, "fractions of the groups", atol=1e-9)
    else:
        close(np.asarray(r.density_subgroups), np.ones((1, len(g0))), 1e-9, "fraction of the single group")
    ctx.nontrivial(np.max(np.abs(model.g / g0 - 1)) > 1e-4 or np.max(np.abs(model.total / n0 - 1)) > 1e-4)
    # reported rates
    for got, terms, what, norm in ((r.en_chg_rates, c["e"], "erg s-1", lambda t: evo.MEC2 * model.g), (r.rel_inj_rates, c["rel"], "s-1", lambda t: 1.0), (r.abs_inj_rates, c["ab"], "cm-3 s-1", lambda t: n0[0] if t["at"] == "min" else n0[-1])):
        ensure(len(got) == len(terms), "%d rates in %s reported for %d functions" % (len(got), what, len(terms)))
        for (k, v), t in zip(got.items(), terms):
            close(val(v, what), norm(t) * evo.power(t, dt, g0)(model.g), 1e-6 + model.tol * 0.01, "reported rate in %s" % what)
    # the emission region holds the evolved distribution
    ensure(blob.n_e is not None and np.isclose(blob.n_e.gamma_min, model.g[model.total > 0][0], rtol=1e-6), "lower bound of the evolved distribution")
    close(val(blob.n_e(np.asarray(r.gamma)), "cm-3"), val(r.density, "cm-3"), 1e-6, "distribution held by the region at the nodes")


def strat_groups():
    return st.fixed_dictionaries(dict(
        b=gen.blob(n_e=gen.dist(shapes=("PowerLaw", "BrokenPowerLaw", "LogParabola"), gmin=(2, 1e4), decades=(0.5, 4), k=gen.logu(1e-6, 1e6)), sizes=(6, 25)),
        e=st.lists(st.lists(evo.energy_term(), max_size=2), min_size=2, max_size=3), rel=st.lists(st.lists(evo.rel_term(), max_size=1), min_size=3, max_size=3), ab=st.lists(st.lists(evo.abs_term(), max_size=1), min_size=3, max_size=3),
        dt=gen.logu(1e-3, 1e6), steps=st.integers(1, 5), split=st.lists(gen.lin(0.0, 1), min_size=3, max_size=3), default=gen.pick(False, False, True)))


def fn_groups(c, ctx):
    """groups of particles with energy changes of their own (Euler, no merging): each group is moved by its own rates and brought to the nodes of the first one by log-log monotone interpolation, vanishing outside its range; densities add up; a group with no function at all is left where it was; non-trivial: two groups move differently"""
    b, dt, M = c["b"], c["dt"], len(c["e"])
    blob, d = build.blob(b), c["b"]["n_e"]
    g0 = ref.grid(d, b["gamma_e_size"])
    if "gamma_b" in d and np.any(np.abs(g0 / d["gamma_b"] - 1) < 1e-9):
        return
    n0 = ref.n_of(d, g0)
    frac = np.repeat(np.array(c["split"][:M])[:, None], len(g0), axis=1)
    if c["default"] or frac.sum() <= 0:
        frac = np.zeros((M, len(g0)))
        frac[0] = 1.0
    frac = frac / frac.sum(axis=0)
    E, R, A, groups = {}, {}, {}, [[] for _ in range(M)]
    for m in range(M):
        for tgt, terms, mk, key in ((E, c["e"][m], evo.efun, "e"), (R, c["rel"][m], evo.rfun, "r"), (A, c["ab"][m], lambda t, dt, g: evo.afun(t, dt, g, n0), "a")):
            for i, t in enumerate(terms):
                k = "%s%d%d" % (key, m, i)
                tgt[k] = mk(t, dt, g0)
                groups[m].append(k)
    g, n = g0.copy(), frac * n0
    tol = 1e-7
    moved = False
    for _ in range(c["steps"]):
        nodes, dens = [], []
        for m in range(M):
            mod = evo.Model(g, n[m])
            mod.g0, mod.n0 = g0, n0
            f, der = mod.rate(c["e"][m], dt, g)
            g1, w = g + dt * f, 1 + dt * der
            if np.any(g1 <= 0) or np.any(w <= 0) or np.any(np.diff(g1) < 1e-6 * g1[1:]):
                return
            n1 = n[m] / w + dt * mod.injection([c["rel"][m]], [c["ab"][m]], dt)[0]
            if np.any(n1 < 0) or np.any((n1 > 0) & (n1 < 1e-200)):
                return
            nodes.append(g1)
            dens.append(n1)
            tol = (tol + 1.2e-3 * np.max(np.abs(dt * f / g))) * evo.amplification(n[m] / w, n1)
        gn = nodes[0]
        for m in range(1, M):
            ok = dens[m] > 0
            if not ok.any() or np.array_equal(nodes[m], gn):
                continue
            moved = True
            x, y = nodes[m][ok], dens[m][ok]
            if len(x) < 2 or not np.all(np.diff(np.flatnonzero(ok)) == 1):
                return
            if np.any(np.abs(gn / x[0] - 1) < 1e-7) or np.any(np.abs(gn / x[-1] - 1) < 1e-7):
                return  # on the edge of the range
            ins = (gn >= x[0]) & (gn <= x[-1])
            out = np.zeros_like(gn)
            out[ins] = 10 ** PchipInterpolator(np.log10(x), np.log10(y))(np.log10(gn[ins]))
            # small displacements of the nodes are amplified by the steepness of the distribution
            tol += 1e-6 + 1e-3 * np.max(np.abs(dt * mod.rate(c["e"][m], dt, g)[0] / g)) * 1e-2
            dens[m] = out
        g, n = gn, np.array(dens)
        if np.count_nonzero(n.sum(axis=0)) < 2 or np.count_nonzero(n.sum(axis=0)) < len(g) and np.any(np.diff(np.flatnonzero(n.sum(axis=0))) > 1):
            return
    ctx.nontrivial(moved)
    r = TimeEvolution(blob, dt * c["steps"] * u.s, E, R or None, A or None, step_duration=dt * u.s, initial_gamma_array=g0, merge_bins_closer_than=None, subgroups=groups,
                      **({} if c["default"] else dict(subgroups_initial_density=frac))).evaluate()
    close(np.asarray(r.gamma), g, 1e-8 + 1e-3 * tol, "Lorentz factors")
    tot = n.sum(axis=0)
    close(val(r.density, "cm-3"), tot, tol, "total density")
    fr = np.asarray(r.density_subgroups)
    ensure(np.all(fr >= 0) and np.all(np.abs(fr.sum(axis=0) - 1) < 1e-9), "fractions of the groups do not add up to one")
    ok = tot > 0
    close((fr * val(r.density, "cm-3"))[:, ok], n[:, ok], tol, "densities of the groups", floor=1e-12)


def strat_merge():
    return st.fixed_dictionaries(dict(
        b=gen.blob(n_e=gen.dist(shapes=("PowerLaw", "BrokenPowerLaw", "LogParabola"), gmin=(2, 1e4), decades=(0.5, 3), k=gen.logu(1e-6, 1e6)), sizes=(5, 25)),
        gaps=st.lists(gen.pick(0.004, 0.011, 0.02, 0.05, 0.3), min_size=4, max_size=20), e=st.lists(evo.energy_term(), min_size=1, max_size=2), ab=st.lists(evo.abs_term(), max_size=1),
        dt=gen.logu(1e-3, 1e6), steps=st.integers(1, 3), thr=gen.logu(0.006, 0.06), heun=st.booleans()))


def fn_merge(c, ctx):
    """runs of Lorentz factors closer than the threshold (in decades; the first and last gap excepted) are replaced by their logarithmic mean, on the distribution interpolated between them; the others are untouched; non-trivial: three or more nodes merged into one"""
    b, dt, thr = c["b"], c["dt"], c["thr"]
    d = b["n_e"]
    lg = np.concatenate([[0], np.cumsum(c["gaps"])])
    lg = np.log10(d["gamma_min"] * 1.0001) + lg / lg[-1] * min(lg[-1], np.log10(d["gamma_max"] / d["gamma_min"]) - 0.001)
    g0 = 10**lg
    if "gamma_b" in d and np.any(np.abs(g0 / d["gamma_b"] - 1) < 1e-3):
        return
    n0 = ref.n_of(d, g0)
    if np.any(n0 <= 1e-200):
        return
    m = evo.Model(g0, n0)
    biggest = 1
    try:
        for _ in range(c["steps"]):
            m.step(c["e"], [[]], [c["ab"]], dt, dt, c["heun"])
            lx, ly = np.log10(m.g), np.log10(m.total)
            gaps = np.diff(lx)
            if np.any(gaps < 1e-6) or np.any(np.abs(gaps[1:-1] / thr - 1) < 1e-5) or np.any(ly < -200):
                return
            close_ = gaps < thr
            close_[0] = close_[-1] = False
            if not close_.any():
                continue
            f = PchipInterpolator(lx, ly)
            runs = np.split(np.arange(len(lx)), np.flatnonzero(~close_) + 1)
            biggest = max(biggest, max(map(len, runs)))
            new = np.array([lx[r].mean() for r in runs])
            m.n = np.array([[m.total[r[0]] if len(r) == 1 else 10 ** f(x) for r, x in zip(runs, new)]])
            m.g = 10**new
            if len(new) < 3:
                return
            m.tol += 1e-6
            m.history[-1] = (m.g, m.n)
    except evo.Invalid:
        return
    E = {"e%d" % i: evo.efun(t, dt, g0) for i, t in enumerate(c["e"])}
    A = {"a%d" % i: evo.afun(t, dt, g0, n0) for i, t in enumerate(c["ab"])}
    blob = build.blob(b)
    r = TimeEvolution(blob, c["steps"] * dt * u.s, E, None, A or None, step_duration=dt * u.s, initial_gamma_array=g0, merge_bins_closer_than=thr, method="heun" if c["heun"] else "euler").evaluate()
    ctx.nontrivial(biggest >= 3)
    if biggest > 1:
        ctx.label("merged")
    close(np.asarray(r.gamma), m.g, 1e-8 + m.tol * 1e-3, "Lorentz factors")
    close(val(r.density, "cm-3"), m.total, 1e-6 + 3 * m.tol, "densities")


SUBS = [
    Sub("model", fn, strat, quick=1000, thorough=20000, shards=8),
    Sub("groups", fn_groups, strat_groups, quick=600, thorough=20000, shards=8),
    Sub("merge", fn_merge, strat_merge, quick=400, thorough=15000, shards=6),
]
