"""Values of the analytic particle distributions"""
import numpy as np
import astropy.units as u
from hypothesis import strategies as st

import agnpy.spectra as S
from vlib import build, gen, ref
from vlib.cmp import close, ensure, val
from vlib.runner import Sub

ASSUMPTIONS = ["values closer than 1e-9 (relative) to a bound, without being the bound, are not generated (documented rounding tolerance)"]


def strat():
    return st.fixed_dictionaries(
        dict(
            d=gen.dist(mass=gen.pick("e", "p"), gmin=(1.0, 1e6)),
            where=st.lists(gen.lin(-0.5, 1.5), min_size=1, max_size=20),
            bounds=st.booleans(), round=gen.pick(0, 2.3e-16, 1e-13), brk=st.booleans(), sort=gen.pick("up", "down", "as is"),
            layout=gen.pick("1d", "col", "scalar", "0d", "row", "matrix", "fortran", "2d"),
            # just off the bounds: beyond any rounding, hence outside (or inside) like any other value
            near=st.lists(st.tuples(gen.pick("gamma_min", "gamma_max"), gen.pick(-1, 1), gen.logu(2e-9, 1e-2)).map(list), max_size=4),
        )
    )


def gammas(c):
    d = c["d"]
    L = np.log(d["gamma_max"] / d["gamma_min"])
    g = [float(d["gamma_min"] * np.exp(w * L)) for w in c["where"]]
    g = [x for x in g if abs(x / d["gamma_min"] - 1) > 1e-9 and abs(x / d["gamma_max"] - 1) > 1e-9]
    if c["bounds"]:
        g += [d["gamma_min"], d["gamma_max"]]
    g += [d[b] * (1 + s * e) for b, s, e in c["near"]]
    if c["brk"] and "gamma_b" in d:
        g += [d["gamma_b"]]
    if not g:
        g = [d["gamma_min"]]
    if c["sort"] == "up":
        g = sorted(g)
    elif c["sort"] == "down":
        g = sorted(g, reverse=True)
    return np.array(g)


def fn_values(c, ctx):
    """closed form inside [gamma_min, gamma_max] (bounds included), exactly zero outside, every calling route the same, layout independent; non-trivial: points inside and outside"""
    d = c["d"]
    obj = build.dist(d)
    g = gammas(c)
    rounded = c["round"] and c["bounds"] and c["sort"] == "up" and c["layout"] not in ("scalar", "0d", "fortran")
    if rounded:
        g = g[(g >= d["gamma_min"]) & (g <= d["gamma_max"])]
    want = ref.n_of(d, g)
    inside = (g >= d["gamma_min"]) & (g <= d["gamma_max"])
    ctx.nontrivial(inside.any())
    if (~inside).any():
        ctx.label("some outside")
    ctx.label(d["shape"])
    lay = c["layout"]
    ctx.label(lay)
    if lay == "col":
        arg, want = g.reshape(-1, 1), want.reshape(-1, 1)
    elif lay == "scalar":
        arg, want = float(g[0]), want[0]
    elif lay == "0d":
        arg, want = np.array(g[0]), want[0]
    elif lay == "row":
        arg, want = g.reshape(1, -1), want.reshape(1, -1)
    elif lay in ("matrix", "fortran"):
        order = "C" if lay == "matrix" else "F"
        arg, want = np.array([g, g], order=order), np.array([want, want])
    elif lay == "2d":
        # broadcastable (n, 1) times frequencies is how the package itself uses it
        arg, want = g.reshape(-1, 1, 1), want.reshape(-1, 1, 1)
    else:
        arg = g
    if rounded:
        # bounds overstepped by rounding at the ends of an increasing array still count as inside
        ctx.label("rounded bounds")
        arg = arg.copy()
        arg.reshape(-1)[0] *= 1 - c["round"]
        arg.reshape(-1)[-1] *= 1 + c["round"]
    before = np.array(arg, copy=True)
    got = val(obj(arg), "cm-3", "n(gamma)")
    close(got, want, 1e-9, "n(gamma)")
    out = np.asarray(want) == 0
    ensure(np.all(got[out] == 0) if got.ndim else (got == 0 if out else True), "density is not zero outside the bounds")
    close(np.asarray(arg, float), before, 1e-9, "argument array after the call")
    close(val(obj.evaluate(arg, *obj.parameters), "cm-3"), want, 1e-9, "evaluate(gamma, *parameters)")
    kw = dict(build.shape_params(d), k=d["k"] * u.Unit("cm-3"), gamma_min=d["gamma_min"], gamma_max=d["gamma_max"])
    close(val(type(obj).evaluate(arg, **kw), "cm-3"), want, 1e-9, "evaluate by keyword")
    close(val(obj(arg), "cm-3", "n(gamma)"), want, 1e-9, "n(gamma), second call")


def fn_state(c, ctx):
    """changing an attribute of the distribution changes the values accordingly (parameters, call and SSA integrand agree after mutations); non-trivial: at least one mutation"""
    d = dict(c["d"])
    obj = build.dist(d)
    for name, f in c["muts"]:
        keys = ["k"] + build.SHAPE_KEYS[d["shape"]] + ["gamma_min", "gamma_max"]
        key = keys[name % len(keys)]
        new = d[key] * f
        if key == "gamma_min" and new >= d["gamma_max"]:
            continue
        if key == "gamma_max" and new <= d["gamma_min"]:
            continue
        d[key] = new
        setattr(obj, key, new * u.Unit("cm-3") if key == "k" else new)
        ctx.nontrivial()
        g = ref.grid(d, 11)
        close(val(obj(g), "cm-3"), ref.n_of(d, g), 1e-9, "n(gamma) after setting " + key)
        pars = [p.to_value("cm-3") if hasattr(p, "unit") else p for p in obj.parameters]
        close(np.array(pars, float), np.array([d[k] for k in keys], float), 1e-12, "parameters after setting " + key)


def strat_state():
    return st.fixed_dictionaries(
        dict(d=gen.dist(gmin=(2.0, 1e5), decades=(1, 5)), muts=st.lists(st.tuples(st.integers(0, 6), gen.logu(0.5, 2.0)).map(list), min_size=1, max_size=6))
    )


def fn_continuity(c, ctx):
    """broken shapes are continuous at the break and equal k (times the cutoff) there; log-parabola equals k at the pivot; limits q=0, p1=p2 and gamma_c->inf reduce to the simpler shapes"""
    d = c["d"]
    g = ref.grid(d, 23)
    s = d["shape"]
    ctx.label(s)
    unit = u.Unit("cm-3")
    base = dict(gamma_min=d["gamma_min"], gamma_max=d["gamma_max"], k=d["k"] * unit)
    ctx.nontrivial()
    if s in ("BrokenPowerLaw", "ExpCutoffBrokenPowerLaw"):
        obj = build.dist(d)
        gb = d["gamma_b"]
        if d["gamma_min"] < gb * (1 - 1e-6) and gb * (1 + 1e-6) < d["gamma_max"]:
            ctx.label("break inside")
            v = val(obj(np.array([gb * (1 - 1e-9), gb, gb * (1 + 1e-9)])), "cm-3")
            cut = np.exp(-gb / d["gamma_c"]) if "gamma_c" in d else 1.0
            close(v, np.full(3, d["k"] * cut), 1e-7 * (1 + gb / d.get("gamma_c", np.inf)), "value at the break")
        same = dict(build.shape_params(d), p2=d["p1"])
        pl = ref.n_of(dict(shape="PowerLaw", k=d["k"] * gb ** d["p1"], p=d["p1"], gamma_min=d["gamma_min"], gamma_max=d["gamma_max"]), g)
        if "gamma_c" in d:
            pl = pl * np.exp(-g / d["gamma_c"])
        close(val(getattr(S, s)(**same, **base)(g), "cm-3"), pl, 1e-8, "p1=p2 limit")
    if s == "LogParabola":
        obj = build.dist(d)
        if d["gamma_min"] <= d["gamma_0"] <= d["gamma_max"]:
            close(val(obj(np.array([d["gamma_0"]])), "cm-3"), [d["k"]], 1e-9, "value at the pivot")
        o2 = S.LogParabola(p=d["p"], q=0.0, gamma_0=d["gamma_0"], **base)
        pl = ref.n_of(dict(shape="PowerLaw", k=d["k"] * d["gamma_0"] ** d["p"], p=d["p"], gamma_min=d["gamma_min"], gamma_max=d["gamma_max"]), g)
        close(val(o2(g), "cm-3"), pl, 1e-8, "q=0 limit")
    if s == "ExpCutoffPowerLaw":
        o2 = S.ExpCutoffPowerLaw(p=d["p"], gamma_c=1e30, **base)
        o3 = S.PowerLaw(p=d["p"], **base)
        close(val(o2(g), "cm-3"), val(o3(g), "cm-3"), 1e-8, "gamma_c -> infinity limit")
    e = S.EmptyDistribution()
    ensure(np.all(val(e(g), "cm-3") == 0) and val(e.integrate(), "cm-3") == 0, "the empty distribution is not empty")


def strat_int():
    i = st.integers(0, 4)
    return st.fixed_dictionaries(
        dict(shape=gen.pick(*gen.SHAPES), gmin=st.integers(1, 20), width=st.integers(2, 10**6), idx=st.lists(i, min_size=2, max_size=2), piv=gen.lin(0, 1),
             where=st.lists(gen.lin(-0.2, 1.2), min_size=1, max_size=8), float_idx=st.booleans())
    )


def fn_int(c, ctx):
    """integer Lorentz factors, indices and bounds give the same density and SSA integrand as their floating-point equals; non-trivial: integers within the bounds"""
    a, b = c["gmin"], c["gmin"] + c["width"]
    piv = int(round(a + c["piv"] * (b - a)))
    i1, i2 = c["idx"]
    d = dict(shape=c["shape"], k=1e-3, gamma_min=a, gamma_max=b, mass="e")
    d.update({"PowerLaw": dict(p=i1), "BrokenPowerLaw": dict(p1=i1, p2=i2, gamma_b=piv), "LogParabola": dict(p=i1, q=i2, gamma_0=piv),
              "ExpCutoffPowerLaw": dict(p=i1, gamma_c=piv), "ExpCutoffBrokenPowerLaw": dict(p1=i1, p2=i2, gamma_c=b, gamma_b=piv)}[c["shape"]])
    if c["float_idx"]:
        d.update({k: float(d[k]) for k in ("p", "p1", "p2", "q") if k in d})
    g = np.unique([max(1, int(round(a + w * (b - a)))) for w in c["where"]])
    f = {k: float(v) if isinstance(v, int) else v for k, v in d.items()}
    obj = build.dist(d)
    want = ref.n_of(f, g.astype(float))
    ctx.label(c["shape"])
    ctx.nontrivial(bool(np.any(want != 0)))
    close(val(obj(g.copy()), "cm-3"), want, 1e-9, "n(integer gamma)")
    close(val(obj(int(g[0])), "cm-3"), want[0], 1e-9, "n(integer scalar)")
    ws = ref.ssa_integrand(f, g.astype(float))
    close(val(obj.SSA_integrand(g.copy()), "cm-3"), ws, 1e-8, "SSA integrand of integers", atol=np.abs(want) / g * 1e-9)


SUBS = [
    Sub("integers", fn_int, strat_int, quick=400, thorough=10000, shards=1),
    Sub("values", fn_values, strat, quick=1200, thorough=60000, shards=3),
    Sub("mutations", fn_state, strat_state, quick=400, thorough=20000, shards=2),
    Sub("limits", fn_continuity, lambda: st.fixed_dictionaries(dict(d=gen.dist(decades=(1, 6)))), quick=500, thorough=20000, shards=2),
]
