"""Parameters of the fit models"""
import copy

import numpy as np
import astropy.units as u
from hypothesis import strategies as st

from agnpy.compton import ExternalCompton, SynchrotronSelfCompton
from agnpy.fit import ExternalComptonModel, SynchrotronSelfComptonModel
from agnpy.synchrotron import Synchrotron
from agnpy.targets import RingDustTorus, SphericalShellBLR, SSDisk
from vlib import build, fitm, gen, ref
from vlib.cmp import close, ensure, raises, val
from vlib.runner import Sub

LU = u.Unit("erg s-1")
EV = (1 * u.eV).to_value("erg")
LINES = ["Lyalpha", "Hbeta", "CIV", "HeI", "MgII"]
WL = dict(Lyalpha=1215.67, Hbeta=4862.68, CIV=1549.06, HeI=5877.29, MgII=2798.75)


def new(n, t, ssa, backend):
    return SynchrotronSelfComptonModel(n, ssa=ssa, backend=backend) if t is None else ExternalComptonModel(n, t, ssa=ssa, backend=backend)


def listing(m, backend):
    if backend == "gammapy":
        return [(p.name, p.value, p.unit, p.min, p.max, p.frozen) for p in m.parameters]
    return [(p.name, p.val, u.Unit(p.units), p.min, p.max, p.frozen) for p in m.pars]


def strat():
    return st.fixed_dictionaries(dict(s=fitm.spectrum(), s2=fitm.spectrum(), targets=gen.pick(None, *fitm.TARGETS), backend=gen.pick("gammapy", "sherpa"), ssa=st.booleans(), p=fitm.pars(), which=gen.lin(0, 1), bad=gen.pick("xspec", "Gammapy", "", "naima", None)))


def fn(c, ctx):
    """names, order, initial values (those of the wrapped distribution), units, limits and which are free, for every distribution, scenario and backend; models are independent of one another and of the wrapped object; unknown backends are refused; non-trivial: always"""
    s, t, b = c["s"], c["targets"], c["backend"]
    ctx.nontrivial()
    ctx.label(s["shape"])
    ctx.label("%s %s" % (b, "+".join(t) if t else "ssc"))
    n = fitm.n_e(s)
    before = {k: v if callable(v) else copy.copy(v) for k, v in vars(n).items()}
    m = new(n, t, c["ssa"], b)
    got = listing(m, b)
    if b == "gammapy":
        ensure(got[-1][0] == "norm" and got[-1][5], "the last parameter is %r, not a frozen norm" % (got[-1],))
        got = got[:-1]
    names = fitm.names(s["shape"], t)
    ensure([g[0] for g in got] == names, "parameters %s instead of %s" % ([g[0] for g in got], names))
    d = fitm.desc(s)
    if s["shape"] == "Interpolated":
        d.update(gamma_min=1.0, gamma_max=1e8)
    for name, value, unit, lo, hi, frozen in got:
        key = name[6:] if name.startswith("log10_") else name
        want = fitm.DEFAULT[name] if name in fitm.DEFAULT else np.log10(d[key]) if name.startswith("log10_") else d[key]
        close(value, want, 1e-9, "initial value of " + name, atol=1e-9)
        ensure(unit == u.Unit(fitm.UNITS.get(name, "")), "%s in %s" % (name, unit))
        close([lo, hi], fitm.LIMITS[name], 1e-9, "limits of " + name)
        ensure(frozen == (name not in fitm.FREE), "%s: frozen is %s" % (name, frozen))
    if b == "gammapy":
        ns = len(fitm.SHAPE_PARS[s["shape"]])
        ensure(m.spectral_parameters.names == names[:ns], "spectral_parameters %s" % m.spectral_parameters.names)
        ne = ns + (4 if t is None else 6)
        ensure(m.emission_region_parameters.names == names[ns:ne], "emission_region_parameters %s" % m.emission_region_parameters.names)
        if t is not None:
            ensure(m.targets_parameters.names == names[ne:], "targets_parameters %s" % m.targets_parameters.names)
    # a second model of another distribution, a changed parameter: nothing else changes
    m2 = new(fitm.n_e(c["s2"]), t, not c["ssa"], b)
    other = listing(m2, b)
    name = names[int(c["which"] * (len(names) - 1))]
    allp = dict(c["p"], **c["s"]["pars"])
    lo, hi = fitm.LIMITS[name]
    v = min(max(allp[name] * 0.9, lo), hi)
    fitm.put(m, b, name, v)
    close(fitm.get(m, b, name), v, 1e-12, "value of %s after setting it" % name)
    rest = [(x, y) for x, y in zip(listing(m, b), got) if x[0] != name]
    ensure(all(x == y for x, y in rest), "setting %s changed %s" % (name, [x for x, y in rest if x != y][:1]))
    ensure(listing(m2, b) == other, "another model changed")
    for k, x in before.items():
        y = vars(n)[k]
        ensure(np.all(x == y) if not callable(x) else x is y, "attribute %s of the wrapped distribution changed" % k)
    if c["bad"] not in ("gammapy", "sherpa"):
        raises(ValueError, lambda: new(n, t, c["ssa"], c["bad"]), "backend %r" % c["bad"])


@st.composite
def _objects(draw):
    z, dD = draw(gen.logu(1e-3, 2)), draw(gen.lin(2, 60))
    tv = draw(gen.logu(20, 2e7))
    return dict(z=z, delta_D=dD, Gamma=dD * draw(gen.lin(0.6, 2.0)), R_b=ref.C * tv * dD / (1 + z), B=draw(gen.logu(1e-3, 50)), r=draw(gen.logu(2e16, 1e19)), M=draw(gen.logu(1e7, 5e8)), L=draw(gen.logu(3e44, 5e47)), eta=draw(gen.lin(0.06, 0.3)),
                Rin=draw(gen.lin(3, 10)), Rratio=draw(gen.logu(5, 200)), xi=draw(gen.lin(0.01, 1)), line=draw(gen.pick(*LINES)), R_line=draw(gen.logu(1.1e16, 1e18)), xi_dt=draw(gen.lin(0.01, 1)), T=draw(gen.lin(110, 5000)),
                R_dt=draw(gen.logu(1.1e17, 9e19)), units=draw(gen.pick("cgs", "si")))


def strat_sync():
    return st.fixed_dictionaries(dict(s=fitm.spectrum(), o=_objects(), targets=gen.pick(None, None, *fitm.TARGETS), backend=gen.pick("gammapy", "sherpa"), ssa=st.booleans(), E=st.lists(gen.logu(1e-5, 1e13), min_size=1, max_size=3, unique=True), modify=st.booleans()))


def fn_sync(c, ctx):
    """a model whose parameters are set from a region and targets returns the sum of the SEDs of those objects, and keeps it when the objects change afterwards; non-trivial: non-zero SED"""
    s, o, t, bk = c["s"], c["o"], c["targets"], c["backend"]
    if s["pars"]["log10_gamma_max"] - s["pars"]["log10_gamma_min"] < 0.3:
        return
    if s["shape"] == "Interpolated":
        s = dict(s, pars=dict(s["pars"], log10_gamma_min=0.0, log10_gamma_max=8.0))
    if not fitm.fine(s, dict(delta_D=o["delta_D"], log10_r=np.log10(o["r"]), R_line=o["R_line"]) if t else None) and s["shape"] != "Interpolated":
        return
    if t and abs(o["r"] / o["R_line"] - 1) < 1e-3:
        return
    n = fitm.n_e(s)
    bb = dict(R_b=o["R_b"], z=o["z"], delta_D=o["delta_D"], Gamma=o["Gamma"], B=o["B"], n_e=None, n_p=None, xi=1.0, gamma_e_size=300, gamma_p_size=10)
    if o["Gamma"] <= 1.0:
        return
    blob = build.blob(bb, n_e=n)
    if not 0 <= blob.mu_s <= 1 or not 10 <= blob.t_var.to_value("s") <= 3e7:
        return
    ctx.label("%s %s" % (bk, "+".join(t) if t else "ssc"))
    # the region is described in other units: the same region
    if o["units"] == "si":
        blob.R_b = blob.R_b.to("pc")
    E = np.array(sorted(c["E"]))
    nu = (E * u.eV).to("Hz", equivalencies=u.spectral())
    m = new(n, t, c["ssa"], bk)
    a = (nu, blob.z, blob.d_L, blob.delta_D, blob.B, blob.R_b, n, *n.parameters)
    want = Synchrotron.evaluate_sed_flux(*a, ssa=c["ssa"]) + SynchrotronSelfCompton.evaluate_sed_flux(*a, ssa=c["ssa"])
    names = fitm.REGION if t is None else fitm.REGION_EC
    exp = dict(z=o["z"], delta_D=o["delta_D"], log10_B=np.log10(o["B"]), t_var=o["R_b"] * (1 + o["z"]) / (ref.C * o["delta_D"]), mu_s=blob.mu_s, log10_r=np.log10(o["r"]))
    if t is None:
        m.set_emission_region_parameters_from_blob(blob)
    else:
        r = o["r"] * u.cm
        if o["units"] == "si":
            r = r.to("pc")
        L, M, R_line, R_dt = o["L"] * LU, o["M"] * u.M_sun, o["R_line"] * u.cm, o["R_dt"] * u.cm
        if o["units"] == "si":
            L, M, R_line, R_dt = L.to("W"), M.to("kg"), R_line.to("m"), R_dt.to("lyr")
        disk = SSDisk(M, L, o["eta"], o["Rin"], o["Rin"] * o["Rratio"], R_g_units=True)
        blr = SphericalShellBLR(L, o["xi"], o["line"], R_line) if "blr" in t else None
        dt = RingDustTorus(L, o["xi_dt"], o["T"] * u.K, R_dt) if "dt" in t else None
        Rg = ref.G * o["M"] * ref.MSUN / ref.C**2
        if not (1e12 <= o["Rin"] * Rg <= 1e16):
            return
        m.set_emission_region_parameters_from_blob(blob, r)
        m.set_targets_parameters_from_targets(disk, blr, dt) if c["modify"] else m.set_targets_parameters_from_targets(disk, dt=dt, blr=blr)
        exp.update(log10_L_disk=np.log10(o["L"]), M_BH=o["M"] * ref.MSUN, m_dot=o["L"] / (o["eta"] * ref.C**2), R_in=o["Rin"] * Rg, R_out=o["Rin"] * o["Rratio"] * Rg)
        exp.update(xi_line=o["xi"], lambda_line=WL[o["line"]], R_line=o["R_line"], xi_dt=o["xi_dt"], T_dt=o["T"], R_dt=o["R_dt"])
        names = fitm.names(s["shape"], t)[len(fitm.SHAPE_PARS[s["shape"]]):]
        want = want + disk.sed_flux(nu, o["z"])
        for x in (blr, dt):
            if x is not None:
                want = want + ExternalCompton(blob, x, r=r).sed_flux(nu)
        if dt is not None:
            want = want + dt.sed_flux(nu, o["z"])
    for k in names:
        close(fitm.get(m, bk, k), exp[k], 1e-6, "parameter " + k, atol=1e-9)
    if c["modify"]:
        blob.B = 3 * blob.B
        blob.R_b = 2 * blob.R_b
        blob.z = blob.z / 2
    want = want.to_value("erg cm-2 s-1")
    if not np.all(np.isfinite(want)):
        return
    ctx.nontrivial(want.max() > 1e-60)
    got = val(m(E * u.eV), "cm-2 eV-1 s-1") * E**2 * EV if bk == "gammapy" else np.asarray(m(E))
    close(got, want, 1e-5, "SED of the model against the objects", floor=1e-9, atol=1e-150)


SUBS = [
    Sub("declaration", fn, strat, quick=400, thorough=10000, shards=6),
    Sub("from_objects", fn_sync, strat_sync, quick=160, thorough=4000, shards=8),
]
