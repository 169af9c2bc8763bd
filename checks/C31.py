"""Time evolution against exact solutions, automatic steps"""
import numpy as np
import astropy.units as u
from astropy.constants import m_e
from hypothesis import strategies as st

from agnpy.synchrotron import Synchrotron
from agnpy.time_evolution import TimeEvolution, fermi_acceleration, synchrotron_loss
from vlib import build, evo, gen, ref
from vlib.cmp import close, ensure, val
from vlib.runner import Sub

MODES = {"auto": {}, "auto_no_optimise": dict(optimize_recalculating_slow_rates=False), "auto_heun": dict(optimize_recalculating_slow_rates=False, method="heun"), "fixed": {}, "fixed_heun": dict(method="heun")}


def dists():
    return gen.dist(shapes=("PowerLaw", "PowerLaw", "LogParabola", "BrokenPowerLaw"), gmin=(10, 1e3), decades=(1, 4), k=gen.logu(1e-6, 1e4))


def strat():
    return st.fixed_dictionaries(dict(
        b=gen.blob(n_e=dists(), sizes=(10, 30)), mode=gen.pick(*MODES), cool=gen.logu(1e-2, 20), acc=gen.pick(0.0, 0.0, 0.3, 1.0, 2.0), esc=gen.pick(0.0, 0.0, 0.5, -0.3), eps=gen.pick(0.01, 0.02, 0.04), merge=gen.pick("default", None, 0.02), bounds=gen.pick(False, False, True),
        unit=gen.pick("s", "h")))


def fn(c, ctx):
    """synchrotron cooling with Fermi acceleration and escape or relative injection at constant rates: the density at every node is the exact solution along the characteristics, within the error of the steps, in all stepping modes, with and without merging of bins and bounds; non-trivial: energies change by more than 5 %"""
    b, d = dict(c["b"]), c["b"]["n_e"]
    blob = build.blob(b)
    gmax = d["gamma_max"]
    b0 = 4 / 3 * ref.ST * ref.C * (b["B"] ** 2 / (8 * np.pi)) / (ref.ME * ref.C**2)  # dgamma/dt = -b0 gamma^2
    T = c["cool"] / (b0 * gmax)
    a, q = c["acc"] / T, c["esc"] / T  # rates per second
    eps = c["eps"]
    fixed = c["mode"].startswith("fixed")
    kw = dict(MODES[c["mode"]])
    if fixed:
        kw["step_duration"] = T / max(10, int(np.ceil((c["cool"] + c["acc"] + abs(c["esc"])) / eps / 3))) * u.s
    else:
        kw.update(max_energy_change_per_interval=eps, max_density_change_per_interval=5 * eps, max_injection_per_interval=1e300)
    if c["merge"] != "default":
        kw["merge_bins_closer_than"] = c["merge"]
    lo, hi = d["gamma_min"], gmax
    if c["bounds"]:
        lo, hi = d["gamma_min"] * 1.3, gmax / 1.3
        kw["gamma_bounds"] = (lo, hi)
    tmax_g = lambda g: g / (1 + b0 * g * T) if not a else 1 / ((1 / g + b0 / a * np.expm1(a * T)) * np.exp(-a * T))  # noqa: E731
    if c["bounds"] and (tmax_g(hi) < 2 * lo or tmax_g(lo) > hi / 2):
        return  # the bounds leave nothing
    times = [0.0]
    fun = [synchrotron_loss(Synchrotron(blob))]
    if a:
        fun.append(fermi_acceleration((1 / a * u.s).to(c["unit"])))
    r = TimeEvolution(blob, (T * u.s).to(c["unit"]), fun if len(fun) > 1 else fun[0], (lambda s: np.ones_like(s.gamma) * (q / u.s).to(1 / u.Unit(c["unit"]))) if q else None,
                      distribution_change_callback=lambda h: times.append(h.total_time.to_value("s")), **kw).evaluate()
    ctx.label(c["mode"])
    ctx.label("merge %s%s" % (c["merge"], " bounds" if c["bounds"] else ""))
    close(val(r.total_time, "s"), T, 1e-9, "elapsed time")
    g, n = np.asarray(r.gamma), val(r.density, "cm-3")
    ensure(np.all(np.diff(g) > 0), "Lorentz factors not increasing")
    ensure(np.all(n >= 0), "negative densities")
    if c["bounds"]:
        ensure(np.all((g >= lo * (1 - 1e-9)) & (g <= hi * (1 + 1e-9))), "Lorentz factors %r outside the bounds (%g, %g)" % (g[[0, -1]], lo, hi))
    ensure(np.all(np.diff(times) > 0) and abs(times[-1] / T - 1) < 1e-9, "times of the steps")
    # exact characteristics, backwards in time
    ea = np.exp(a * T)
    s = b0 * (np.expm1(a * T) / a if a else T)  # 1/g0 = e^{aT}/g - s
    inv = ea / g - s
    ok = (inv > 0) & (n > 0)
    g0 = np.where(ok, 1 / np.where(ok, inv, 1), 0)
    lnchange = np.abs(np.log(np.where(ok, g0 / g, 1)))
    # an error of the position of a node is amplified when it is traced back
    amp = np.maximum(1, np.where(ok, g0 / g * ea, 1))
    margin = amp * 4 * eps * (1 + c["acc"] + lnchange)  # displacement of the trajectories by the steps
    inside = ok & (g0 > d["gamma_min"] * (1.3 if c["bounds"] else 1) * (1 + margin)) & (g0 < hi * (1 - margin))
    inside &= amp < 5
    # far inside: between the edges every node is a particle trajectory
    if not inside.any():
        return
    ctx.nontrivial(np.max(lnchange[inside]) > 0.05)
    want = ref.n_of(d, np.where(inside, g0, d["gamma_min"] * 2)) * np.where(inside, g0, 1) ** 2 / g**2 * ea * np.exp(q * T)
    # local steepness of the initial distribution
    gg = np.where(inside, g0, d["gamma_min"] * 2)
    steep = np.abs(np.log(ref.n_of(d, np.clip(gg * 1.01, None, gmax)) / ref.n_of(d, gg * 0.99)) / 0.02) + 2
    order = 0.05 if "heun" in c["mode"] and not q else 1.0
    if fixed:
        x = float(kw["step_duration"] / (T * u.s)) * (c["cool"] + c["acc"] + abs(c["esc"]))
    else:
        x = eps
    path = c["acc"] * 2 + lnchange + abs(c["esc"])
    if c["b"]["n_e"]["shape"] == "BrokenPowerLaw":
        inside &= np.abs(np.log(gg / d["gamma_b"])) > 2 * margin + 0.7
    tol = order * x * (path + x) * steep * 1.5 * amp + 3e-4 + (0.01 * steep if c["merge"] == 0.02 else 2e-3)
    tol = tol + 0.7 * np.max(np.diff(times)) * abs(q * c["esc"])
    bad = inside & ~(np.abs(np.log(np.where(n > 0, n, 1) / want)) <= tol)
    if np.any(bad):
        i = np.argmax(bad)
        ensure(False, "density %.8g at Lorentz factor %.8g (started at %.8g) instead of %.8g (ratio %.6g, tolerance %.2g)" % (n[i], g[i], g0[i], want[i], n[i] / want[i], tol[i]))
    ctx.label("worst/tol %.0e" % np.max(np.where(inside, np.abs(np.log(np.where(n > 0, n, 1) / want)) / tol, 0)))


def strat_steps():
    return st.fixed_dictionaries(dict(
        b=gen.blob(n_e=gen.dist(shapes=("PowerLaw", "BrokenPowerLaw", "LogParabola"), gmin=(2, 1e4), decades=(0.5, 4), k=gen.logu(1e-6, 1e6)), sizes=(4, 15)),
        e=st.lists(evo.energy_term(), min_size=1, max_size=2), rel=st.lists(evo.rel_term(), max_size=1), ab=st.lists(evo.abs_term(), max_size=1), dt=gen.logu(1e-3, 1e6), K=gen.lin(0.3, 12),
        mode=gen.pick("optimised", "euler", "heun"), te=gen.logu(1e-3, 0.1), td=gen.logu(1e-2, 1), mi=gen.logu(1e-8, 1e8)))


def limits(c, model, dt, tn0):
    """longest step the documented limits allow at every node"""
    f, d = model.rate(c["e"], dt, model.g)
    with np.errstate(all="ignore"):
        t1 = np.where(f != 0, c["te"] * model.g / np.abs(f), np.inf)
        t2 = np.where(d > 0, c["td"] / np.abs(d), np.where(d < 0, c["td"] / (1 + c["td"]) / np.abs(d), np.inf))
        rel = sum((evo.power(t, dt, model.g0)(model.g) for t in c["rel"]), np.zeros_like(f))
        t3 = np.where(rel < 0, 0.5 / np.abs(rel), np.inf)
        ab = sum((evo.power(t, dt, model.g0)(model.g) * (tn0[0] if t["at"] == "min" else tn0[-1]) for t in c["ab"]), np.zeros_like(f))
        t4 = np.where(ab != 0, c["mi"] / np.abs(ab), np.inf)
    return np.min([t1, t2, t3, t4])


def fn_steps(c, ctx):
    """automatic steps are the longest that keep the change of energy, the change of density by compression, the escape and the injection of every bin within the requested limits (at most that long when slow rates are not recalculated); with the steps taken, the state is that of the model; elapsed times increase up to the total; non-trivial: more than one step"""
    b, dt = c["b"], c["dt"]
    d = b["n_e"]
    g0 = ref.grid(d, b["gamma_e_size"])
    if "gamma_b" in d and np.any(np.abs(g0 / d["gamma_b"] - 1) < 1e-9):
        return
    n0 = ref.n_of(d, g0)
    if np.any(n0 <= 1e-250) or n0.max() / n0.min() > 1e250:
        return
    model = evo.Model(g0, n0)
    T = c["K"] * limits(c, model, dt, n0)
    # the total must need a manageable number of steps also once the state has changed
    probe, t, k = evo.Model(g0, n0), 0.0, 0
    try:
        while t < T * (1 - 1e-12):
            h = min(limits(c, probe, dt, n0), T - t)
            probe.step(c["e"], [c["rel"]], [c["ab"]], dt, h, c["mode"] == "heun")
            t, k = t + h, k + 1
            if k > 60:
                return
    except evo.Invalid:
        return
    if not probe.separated(1e-7):
        return
    blob, hist = build.blob(b), []
    r = TimeEvolution(blob, T * u.s, [evo.efun(x, dt, g0) for x in c["e"]], [evo.rfun(x, dt, g0) for x in c["rel"]] or None, [evo.afun(x, dt, g0, n0) for x in c["ab"]] or None, merge_bins_closer_than=None,
                      max_energy_change_per_interval=c["te"], max_density_change_per_interval=c["td"], max_injection_per_interval=c["mi"], distribution_change_callback=hist.append,
                      **({} if c["mode"] == "optimised" else dict(method=c["mode"], optimize_recalculating_slow_rates=False))).evaluate()
    ctx.label(c["mode"])
    t = np.array([0.0] + [val(h.total_time, "s") for h in hist])
    ensure(np.all(np.diff(t) > 0) and abs(t[-1] / T - 1) < 1e-9, "times of the steps: %r of %g" % (t, T))
    close(val(r.total_time, "s"), T, 1e-9, "elapsed time")
    ctx.nontrivial(len(hist) > 1)
    G = [g0] + [np.asarray(h.gamma) for h in hist]
    for k, h in enumerate(hist):
        if c["mode"] == "optimised":
            ensure(np.all(np.abs(G[k + 1] / G[k] - 1) <= c["te"] * 1.15), "step %d changes an energy by %g instead of %g at most" % (k, np.max(np.abs(G[k + 1] / G[k] - 1)), c["te"]))
            if k == 0 and len(hist) > 1:
                close(t[1], limits(c, model, dt, n0), 2e-3, "length of the first step")
            continue
        if k < len(hist) - 1:
            close(t[k + 1] - t[k], limits(c, model, dt, n0), 2e-3 + model.tol, "length of step %d" % k)
        model.step(c["e"], [c["rel"]], [c["ab"]], dt, t[k + 1] - t[k], c["mode"] == "heun")
        close(np.asarray(h.gamma), model.g, 1e-7 + 1e-3 * model.tol, "Lorentz factors after step %d" % k)
        close(val(h.density, "cm-3"), model.total, 1e-7 + model.tol, "densities after step %d" % k)


def strat_uniform():
    return st.fixed_dictionaries(dict(
        b=gen.blob(n_e=gen.dist(shapes=("PowerLaw", "LogParabola"), gmin=(5, 1e4), decades=(0.5, 4), k=gen.logu(1e-6, 1e6)), sizes=(4, 20)),
        shift=gen.lin(-0.6, 1.5), inj=st.one_of(st.just(0.0), gen.logu(1e-3, 10)), T=gen.logu(1e-3, 1e9), mode=gen.pick(*MODES), eps=gen.pick(0.02, 0.05), td=gen.logu(0.01, 1), mi=gen.logu(0.03, 10), groups=st.booleans(), merge=gen.pick(None, None, "default"),
        bounds=gen.pick(False, False, True)))


def fn_uniform(c, ctx):
    """energy changes and injections at rates that depend neither on energy nor on time are reproduced exactly whatever the stepping: every node is displaced by the same amount, every density grows by the same amount; with two identical groups or one; non-trivial: displaced by more than 1 %"""
    b, d, T = c["b"], c["b"]["n_e"], c["T"]
    g0 = ref.grid(d, b["gamma_e_size"])
    n0 = ref.n_of(d, g0)
    if np.any(n0 <= 1e-200):
        return
    v = c["shift"] * g0[0] / T
    S = c["inj"] * n0.min() / T
    blob = build.blob(b)
    kw = dict(MODES[c["mode"]])
    if c["mode"].startswith("fixed"):
        kw["step_duration"] = T / 17 * u.s
    else:
        kw.update(max_energy_change_per_interval=c["eps"], max_density_change_per_interval=c["td"], max_injection_per_interval=c["mi"] * max(S * T, n0.min() * 1e-3))
    if c["merge"] is None:
        kw["merge_bins_closer_than"] = None
    lo, hi = g0[0], g0[-1]
    if c["bounds"]:
        lo, hi = g0[0] * 0.9, g0[-1] * 1.1
        kw.update(gamma_bounds=(lo, hi), max_bin_creep_from_bounds=1e9)
    E = {"e": lambda a: np.full(a.gamma.shape, v) * evo.MEC2 * u.Unit("erg s-1")}
    A = {"i": lambda a: np.full(a.gamma.shape, S) * u.Unit("cm-3 s-1")}
    if c["groups"]:
        kw["subgroups"] = [["e", "i"], ["e"]]
        kw["subgroups_initial_density"] = np.array([np.full(len(g0), 0.25), np.full(len(g0), 0.75)])
        kw["initial_gamma_array"] = g0
    r = TimeEvolution(blob, T * u.s, E, abs_injection_functions=A if c["inj"] or c["groups"] else None, **kw).evaluate()
    ctx.label(c["mode"])
    ctx.nontrivial(abs(c["shift"]) > 0.01)
    g, n = g0 + v * T, n0 + S * T
    keep = slice(None)
    if c["bounds"]:
        if np.any(np.abs(g / lo - 1) < 1e-3) or np.any(np.abs(g / hi - 1) < 1e-3):
            return
        keep = (g >= lo) & (g <= hi)
    gap = np.diff(np.log10(g))
    if c["merge"] and np.any(gap < 2e-3):
        return
    close(np.asarray(r.gamma), g[keep], 1e-8, "Lorentz factors")
    close(val(r.density, "cm-3"), n[keep], 1e-6, "densities")
    if c["groups"]:
        close(np.asarray(r.density_subgroups), np.array([(0.25 * n0 + S * T) / n, 0.75 * n0 / n])[:, keep], 1e-6, "fractions of the groups")


SUBS = [
    Sub("exact", fn, strat, quick=120, thorough=6000, shards=8),
    Sub("steps", fn_steps, strat_steps, quick=160, thorough=8000, shards=8),
    Sub("uniform", fn_uniform, strat_uniform, quick=160, thorough=8000, shards=8),
]
