"""Fits: the statistic of a model on loaded flux points, and the parameters recovered from them"""
import logging
import os
import tempfile

import numpy as np
import astropy.units as u
import gammapy.modeling
import sherpa.fit
from astropy.table import Table
from gammapy.modeling.models import SkyModel
from hypothesis import strategies as st
from sherpa.optmethods import LevMar
from sherpa.stats import Chi2

from agnpy.fit import load_gammapy_flux_points, load_sherpa_flux_points
from vlib import fitm, gen
from vlib.cmp import ensure
from vlib.runner import Sub
from checks.C34 import EV, make

FU = "erg cm-2 s-1"
NAMES = ["Fermi-LAT", "MAGIC", "Swift/XRT", "OVRO"]
H_EV = 4.135667696e-15
logging.getLogger("sherpa").setLevel(logging.ERROR)
logging.getLogger("gammapy").setLevel(logging.ERROR)


def load(rows, syst, lo, hi):
    """the points in both backends"""
    t = Table(rows=rows, names=["e_ref", "e2dnde", "e2dnde_errn", "e2dnde_errp", "instrument"])
    t["e_ref"].unit = "eV"
    for k in ("e2dnde", "e2dnde_errn", "e2dnde_errp"):
        t[k].unit = FU
    t.meta["SED_TYPE"] = "e2dnde"
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, "sed.ecsv")
        t.write(path)
        return [f(path, lo * u.eV, hi * u.eV, syst) for f in (load_sherpa_flux_points, load_gammapy_flux_points)]


def strat():
    return st.fixed_dictionaries(dict(
        s=fitm.spectrum(), p=fitm.pars(), ssa=st.booleans(), targets=gen.pick(None, None, None, None, *fitm.TARGETS), E=st.lists(gen.logu(1e-6, 1e14), min_size=2, max_size=5, unique=True), who=st.lists(st.integers(0, 3), min_size=5, max_size=5),
        dev=st.lists(gen.lin(-3, 3), min_size=5, max_size=5), err=st.lists(gen.logu(0.02, 0.5), min_size=10, max_size=10), syst=st.one_of(st.none(), st.dictionaries(gen.pick(*NAMES), gen.pick(0.05, 0.1, 0.3), max_size=3)), lo=gen.lin(-0.3, 0.4), hi=gen.lin(0.6, 1.3)))


def fn(c, ctx):
    """the statistic both backends minimise is the sum over the points in use of the squared difference between flux and model, in units of the mean error with the systematics in quadrature; it is the same after evaluating another set of parameters in between; non-trivial: the SED is positive at some points in use"""
    t = c["targets"]
    if not fitm.fine(c["s"], c["p"] if t else None) or c["s"]["pars"]["log10_gamma_max"] - c["s"]["pars"]["log10_gamma_min"] < 0.3:
        return
    E = np.array(sorted(c["E"]))
    m = sum(fitm.sed(E * EV / fitm.ref.H, c["s"], c["p"], t, c["ssa"]).values())
    if not np.all(np.isfinite(m)):
        return
    # fluxes around the model (1e-18 where there is none)
    base = np.where(m > 1e-30, m, 1e-18)
    rel = np.array(c["err"]).reshape(2, 5)[:, : E.size]
    f = base * (1 + np.maximum(np.array(c["dev"][: E.size]) * rel.mean(axis=0), -0.9))
    who = [NAMES[i] for i in c["who"]][: E.size]
    rows = [[float(e), float(a), float(a * n), float(a * p), w] for e, a, n, p, w in zip(E, f, *rel, who)]
    L = np.log(E[-1] / E[0])
    lo, hi = E[0] * np.exp(L * c["lo"]), E[0] * np.exp(L * c["hi"])
    if np.any(np.abs(E / lo - 1) < 1e-6) or np.any(np.abs(E / hi - 1) < 1e-6):
        return
    sh, ds = load(rows, c["syst"], lo, hi)
    use = (E > lo) & (E < hi)
    ctx.nontrivial(bool(np.any(m[use] > 1e-30)))
    ctx.label("+".join(t) if t else "ssc")
    sy = np.array([(c["syst"] or {}).get(w, 0.0) for w in who]) * f
    en, ep = rel * f

    def chi2(sig, mask):
        d = f - m
        # the model is known to 1e-4
        return np.sum((d / sig)[mask] ** 2), np.sum((2 * np.abs(d) * 1e-4 * m + (1e-4 * m) ** 2)[mask] / sig[mask] ** 2) + 1e-6

    s = make(c, "sherpa")
    fit = sherpa.fit.Fit(sh, s, stat=Chi2(), method=LevMar())
    g = make(c, "gammapy")
    ds.models = [SkyModel(spectral_model=g, name="source")]
    for k in range(2):
        if np.any(use):
            want, tol = chi2(np.hypot((en + ep) / 2, sy), use)
            got = float(fit.calc_stat())
            ensure(abs(got - want) <= tol + 1e-6 * want, "sherpa statistic %.8g instead of %.8g" % (got, want))
        want, tol, used = 0.0, 0.0, False
        for d in ds:
            mine = np.array([w == d.name for w in who])
            mask = np.zeros(E.size, bool)
            mask[np.flatnonzero(mine)] = np.asarray(d.mask_fit.data).ravel()
            used |= mask.any()
            a, b = chi2((np.hypot(en, sy) + np.hypot(ep, sy)) / 2, mask)
            want, tol = want + a, tol + b
        if used:
            got = float(ds.stat_sum())
            ensure(abs(got - want) <= tol + 1e-6 * want, "gammapy statistic %.8g instead of %.8g" % (got, want))
        if k or t:
            break
        # another set of parameters and back, as a fit does
        for mod, b in ((s, "sherpa"), (g, "gammapy")):
            B = fitm.get(mod, b, "log10_B")
            fitm.put(mod, b, "log10_B", B + (0.3 if B < 1 else -0.3))
            fit.calc_stat() if b == "sherpa" and np.any(use) else ds.stat_sum()
            fitm.put(mod, b, "log10_B", B)


def strat_rec():
    return st.fixed_dictionaries(dict(
        p=gen.lin(1.8, 2.6), dp=gen.lin(0.8, 1.6), gb=gen.lin(3.5, 5), k=gen.lin(-8, -3), B=gen.lin(-2, 0), t=gen.logu(3e3, 1e6), z=gen.logu(0.01, 1), D=gen.lin(5, 40), free=gen.pick(["log10_k", "log10_B"], ["log10_k", "p1"], ["delta_D", "log10_gamma_b"], ["p2", "log10_B"]), start=st.tuples(gen.lin(-1, 1), gen.lin(-1, 1)), backend=gen.pick("sherpa", "sherpa", "gammapy"), ssa=st.booleans()))


STEP = dict(log10_k=0.15, log10_B=0.1, p1=0.05, p2=0.05, delta_D=1.0, log10_gamma_b=0.1)


def fn_rec(c, ctx):
    """fitting fluxes made by the model, from displaced parameters, recovers the parameters that made them and leaves the frozen ones alone; non-trivial: always"""
    ctx.nontrivial()
    ctx.label(c["backend"])
    b = c["backend"]
    s = dict(shape="BrokenPowerLaw", pars=dict(log10_k=c["k"], p1=c["p"], p2=c["p"] + c["dp"], log10_gamma_b=c["gb"], log10_gamma_min=2.03, log10_gamma_max=6.51))
    p = dict(z=c["z"], delta_D=c["D"], log10_B=c["B"], t_var=c["t"])
    m = make(dict(s=s, p=p, ssa=c["ssa"]), b)
    E = np.logspace(-3, 11.5, 16)
    q = make(dict(s=s, p=p, ssa=c["ssa"]), "sherpa")(E.copy())
    y = np.asarray(getattr(q, "value", q), float)
    ok = y > y.max() * 1e-12
    sh, ds = load([[float(e), float(v), float(0.1 * v), float(0.1 * v), "one"] for e, v in zip(E[ok], y[ok])], None, 1e-9, 1e25)
    true = dict(p, **s["pars"])
    for n in true:
        if b == "sherpa":
            (getattr(m, n).thaw if n in c["free"] else getattr(m, n).freeze)()
        else:
            m.parameters[n].frozen = n not in c["free"]
    for n, w in zip(c["free"], c["start"]):
        fitm.put(m, b, n, true[n] + STEP[n] * w)
    if b == "sherpa":
        r = sherpa.fit.Fit(sh, m, stat=Chi2(), method=LevMar()).fit()
        ensure(r.succeeded, "the fit failed: %s" % r.message)
        ensure(r.statval < 1e-3, "statistic %g at the minimum" % r.statval)
    else:
        ds.models = [SkyModel(spectral_model=m, name="source")]
        r = gammapy.modeling.Fit(optimize_opts=dict(backend="minuit"), covariance_opts=dict(backend="minuit")).optimize(ds)
        ensure(ds.stat_sum() < 1e-2, "statistic %g at the minimum" % ds.stat_sum())
    for n in true:
        got = fitm.get(m, b, n)
        tol = (2e-2 if n != "delta_D" else 0.2) if n in c["free"] else 1e-12 * abs(true[n])
        ensure(abs(got - true[n]) <= tol, "%s = %.6g instead of %.6g" % (n, got, true[n]))


SUBS = [Sub("statistic", fn, strat, quick=160, thorough=4000, shards=8), Sub("recovery", fn_rec, strat_rec, quick=40, thorough=800, shards=8)]
