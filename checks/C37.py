"""Static evaluations: fluxes and opacities of any set of parameters, without building objects, in any units"""
import numpy as np
import astropy.units as u
from hypothesis import strategies as st

import agnpy.spectra as S
from agnpy.absorption import Absorption
from agnpy.compton import ExternalCompton, SynchrotronSelfCompton
from agnpy.synchrotron import ProtonSynchrotron, Synchrotron
from agnpy.targets import PointSourceBehindJet, RingDustTorus, SphericalShellBLR, SSDisk
from vlib import build, gen, ref
from vlib.cmp import close, close_noisy, ensure, val
from vlib.runner import Sub

FU = "erg cm-2 s-1"
LEN, LUM, MAS = ("cm", "m", "pc", "lyr"), ("erg s-1", "W", "L_sun"), ("g", "kg", "M_sun")


def units():
    return dict(ul=gen.pick(*LEN), ul2=gen.pick(*LEN), uL=gen.pick(*LUM), um=gen.pick(*MAS), uB=gen.pick("G", "T", "mG"), uk=gen.pick("cm-3", "m-3"), uf=gen.pick("Hz", "Hz", "GHz", "s-1"))


def region(mass="e", sizes=(20, 60)):
    return dict(d=gen.dist(mass=mass, decades=(1.5, 6), gmin=(1, 1e4)), z=gen.logu(1e-3, 5), dL=gen.logu(1e24, 1e29), delta=gen.logu(0.1, 100), R=gen.logu(1e13, 1e18), B=gen.logu(1e-4, 1e2), size=gen.pick(None, *sizes),
                integ=gen.pick("trapz", "loglog"), form=gen.pick("object", "class"), **units())


def q(x, unit, to):
    return (x * u.Unit(unit)).to(to)


def head(c):
    d = c["d"]
    obj = build.dist(d)
    who = obj if c["form"] == "object" else getattr(S, d["shape"])
    pars = (q(d["k"], "cm-3", c["uk"]), *obj.parameters[1:])
    g = ref.GAMMA_DEFAULT if c["size"] is None else 10 ** np.linspace(0.3, 8.7, c["size"])
    kw = dict(integrator=build.INTEG[c["integ"]])
    if c["size"] is not None:
        kw["gamma"] = g
    ctxlab = "default grids" if c["size"] is None else "own grids"
    return who, pars, g, kw, ref.INTEG[c["integ"]], ctxlab


def clear(d, g):
    return all(not np.any(np.abs(g / d[k] - 1) < 1e-8) for k in ("gamma_min", "gamma_max", "gamma_b") if k in d)


def strat_synch():
    return st.fixed_dictionaries(dict(region(), what=gen.pick("synch", "synch_ssa", "tau", "psynch", "delta"), nu=gen.freqs(1e8, 1e26, nmax=6)))


def fn_synch(c, ctx):
    """synchrotron SED with and without self-absorption, opacity, delta approximation and proton SED of free parameters (distance, Doppler factor and redshift unrelated) in any units, on default or own grids, with a distribution object or class: equal to the model; non-trivial: non-zero values"""
    d = c["d"]
    if c["what"] == "psynch":
        c = dict(c, d=dict(d, mass="p"))
    who, pars, g, kw, f, lab = head(c)
    if not clear(d, g):
        return ctx.label("skip grid")
    ctx.label(c["what"])
    ctx.label(lab)
    nu = np.array(c["nu"])
    args = (q(nu, "Hz", c["uf"]), c["z"], q(c["dL"], "cm", c["ul"]), c["delta"], q(c["B"], "G", c["uB"]), q(c["R"], "cm", c["ul2"]), who, *pars)
    n = ref.n_of(d, g)
    mass = ref.MP if c["what"] == "psynch" else ref.ME
    sed = ref.synch_sed(nu, c["z"], c["dL"], c["delta"], c["B"], c["R"], n, g, mass, f)
    tau = lambda: ref.ssa_tau(nu, c["z"], c["delta"], c["B"], c["R"], -ref.ssa_integrand(d, g), g, f) * -1  # noqa: E731
    if c["what"] == "psynch":
        got = val(ProtonSynchrotron.evaluate_sed_flux(*args, **kw), FU)
    elif c["what"] == "tau":
        if c["integ"] == "loglog" and np.any(-ref.ssa_integrand(d, g) < 0):
            return
        got, sed = val(Synchrotron.evaluate_tau_ssa(*args, **kw), ""), tau()
    elif c["what"] == "delta":
        gs = np.sqrt((1 + c["z"]) * ref.eps_of_nu(nu) / c["delta"] * 4.414e13 / c["B"])
        if not clear(d, gs):
            return
        sed = c["delta"] ** 4 * ref.C * ref.ST * c["B"] ** 2 / (8 * np.pi) / (6 * np.pi * c["dL"] ** 2) * gs**3 * 4 / 3 * np.pi * c["R"] ** 3 * ref.n_of(d, gs)
        got = val(Synchrotron.evaluate_sed_flux_delta_approx(*args), FU)
    else:
        ssa = c["what"] == "synch_ssa"
        got = val(Synchrotron.evaluate_sed_flux(*args, ssa=ssa, **kw), FU)
        if ssa:
            if c["integ"] == "loglog" and np.any(-ref.ssa_integrand(d, g) < 0):
                return
            t = tau()
            sed = np.where(t < 1e-3, 1.0, ref.sphere_attenuation(np.where(t < 1e-3, 1.0, t))) * sed
    ctx.nontrivial(np.max(np.abs(sed)) > 1e-100)
    if c["what"] == "tau":
        return close(got, sed, 1e-5, "opacity", floor=1e-10, atol=1e-200)
    close(got, sed, 1e-5, c["what"], floor=1e-13, atol=1e-250)


def strat_ssc():
    return st.fixed_dictionaries(dict(region(), ssa=st.booleans(), nu=gen.freqs(1e13, 1e28, nmax=3)))


def fn_ssc(c, ctx):
    """self-Compton SED of free parameters in any units: equal to the model; non-trivial: non-zero values"""
    who, pars, g, kw, f, lab = head(c)
    d = c["d"]
    if not clear(d, g) or (c["ssa"] and c["integ"] == "loglog" and np.any(-ref.ssa_integrand(d, g) < 0)):
        return
    ctx.label(lab)
    nu = np.array(c["nu"])
    want = ref.ssc_sed(nu, c["z"], c["dL"], c["delta"], c["B"], c["R"], ref.n_of(d, g), g, ref.ssa_integrand(d, g) if c["ssa"] else None, f)
    ctx.nontrivial(want.max() > 1e-100)
    got = val(SynchrotronSelfCompton.evaluate_sed_flux(q(nu, "Hz", c["uf"]), c["z"], q(c["dL"], "cm", c["ul"]), c["delta"], q(c["B"], "G", c["uB"]), q(c["R"], "cm", c["ul2"]), who, *pars, ssa=c["ssa"], **kw), FU)
    close(got, want, 1e-4, "self-Compton SED", floor=1e-9, atol=1e-250)


def strat_ec():
    return st.fixed_dictionaries(dict(region(sizes=(20, 50)), what=gen.pick("iso", "ps", "disk", "blr", "dt"), mus=gen.lin(-1, 0.9999), eps=gen.logu(1e-10, 1e-2), u0=gen.logu(1e-14, 1), L=gen.logu(1e40, 1e48), xi=gen.lin(0.001, 1), Rt=gen.logu(1e15, 1e20), rr=gen.logu(1e-2, 1e2),
                                      M=gen.logu(1e6, 1e10), eta=gen.lin(0.05, 0.4), Rin=gen.lin(2, 20), Rratio=gen.logu(3, 1000), nmu=gen.pick(None, 8, 15), nphi=gen.pick(None, 5, 9), w=st.lists(gen.lin(0.0, 1.03), min_size=1, max_size=3, unique=True)))


def fn_ec(c, ctx):
    """external Compton on an isotropic field, point source, disk, broad line region and torus for free parameters (viewing angle, Doppler factor, photon energy, covering factor, distances unrelated) in any units, default or own grids: equal to the model; non-trivial: non-zero values"""
    who, pars, g, kw, f, lab = head(c)
    d, ms = c["d"], c["mus"]
    w = c["what"]
    if any(np.any(np.abs(g / c["delta"] / d[k] - 1) < 1e-8) for k in ("gamma_min", "gamma_max")):
        return
    big = (c["size"] or 200) * (c["nmu"] or 100) * (c["nphi"] or 50)
    if w in ("iso", "disk", "blr") and big > 1e5:
        c = dict(c, nmu=c["nmu"] or 8) if c["size"] is None else dict(c, nphi=c["nphi"] or 5)
    nmu, nphi = c["nmu"] or 100, c["nphi"] or 50
    ctx.label(w)
    ctx.label(lab)
    mu, phi = np.linspace(-1, 1, nmu), np.linspace(0, 2 * np.pi, nphi)
    if c["nphi"] is not None and w != "ps":
        kw["phi"] = phi
    if c["nmu"] is not None and w in ("iso", "blr"):
        kw["mu"] = mu
    if c["nmu"] is not None and w == "disk":
        kw["mu_size"] = nmu
    R, r, L = c["Rt"], c["Rt"] * c["rr"], c["L"]
    ql, qL = (lambda x: q(x, "cm", c["ul"])), (lambda x: q(x, "erg s-1", c["uL"]))
    M = c["M"] * ref.MSUN
    eps = c["eps"]
    floor = 1e-12
    noise = 0.0
    if w == "iso":
        fn_, targ = ExternalCompton.evaluate_sed_flux_iso_mono, (eps, c["u0"] * u.Unit("erg cm-3") if c["um"] == "g" else q(c["u0"], "erg cm-3", "J m-3"))
        dirs = ref.dirs_iso(c["u0"], eps, nmu, nphi)
    elif w == "ps":
        fn_, targ = ExternalCompton.evaluate_sed_flux_ps_behind_jet, (eps, qL(L), ql(r))
        dirs = (1.0, 0.0, eps, L / (4 * np.pi * ref.C * r**2))
    elif w == "blr":
        if np.any(np.abs(c["rr"] - mu) < 1e-6):
            return
        fn_, targ = ExternalCompton.evaluate_sed_flux_blr, (qL(L), c["xi"], eps, ql(R), ql(r))
        dirs = ref.dirs_shell(c["xi"] * L, eps, R, r, nmu, nphi)
    elif w == "dt":
        fn_, targ = ExternalCompton.evaluate_sed_flux_dt, (qL(L), c["xi"], eps, ql(R), ql(r))
        dirs = ref.dirs_ring(c["xi"] * L, eps, R, r, nphi)
    else:
        Rg = ref.G * M / ref.C**2
        Rin, Rout = c["Rin"] * Rg, c["Rin"] * c["Rratio"] * Rg
        r = Rg * 10 * c["rr"] * 100
        fn_, targ = ExternalCompton.evaluate_sed_flux_ss_disk, (q(M, "g", c["um"]), qL(L), c["eta"], ql(Rin), ql(Rout), ql(r))
        dirs = ref.dirs_disk(M, L, c["eta"], Rin, Rout, r, nmu, nphi)
        eps = ref.disk_pars(M, L, c["eta"])[2] * c["Rin"] ** -0.75
    G = min(d["gamma_max"] * c["delta"], 1e9)
    hi = min(G, 2 * eps * (1 - ms if w == "ps" else 1.0) * G**2)
    lo = min(eps, hi) * 1e-2
    nu = np.exp(np.log(lo) + np.array(sorted(c["w"])) * np.log(hi / lo)) * ref.MEC2 / ref.H / (1 + c["z"])
    nfun = lambda x: ref.n_of(d, x)  # noqa: E731
    model = lambda sh, dd=dirs: ref.ec_sed(nu, c["z"], c["dL"], c["delta"], ms, c["R"], nfun, g, *dd, f, shift=sh)  # noqa: E731
    if w == "disk":
        loss = 1e-15 * (r / Rin) ** 2 * 10
        floor = 1e-11 + loss
        noise = model(0.0, ref.dirs_disk(M, L, c["eta"], Rin, Rout, r, nmu, nphi, rounding=True))
    got = val(fn_(q(nu, "Hz", c["uf"]), c["z"], q(c["dL"], "cm", c["ul2"]), c["delta"], ms, q(c["R"], "cm", c["ul2"]), *targ, who, *pars, **kw), FU)
    ctx.nontrivial(got.max() > 1e-100)
    close_noisy(got, model, 5e-5 + (0 if w != "disk" else loss), "external Compton (%s)" % w, floor=floor, atol=1e-250 + noise)


def strat_tau():
    return st.fixed_dictionaries(dict(what=gen.pick("ps", "ps_mu", "disk", "blr", "blr_mu", "dt", "dt_mu"), z=gen.logu(1e-3, 5), deg=gen.logu(1e-2, 30), L=gen.logu(1e43, 1e48), xi=gen.lin(0.001, 1), T=gen.lin(100, 2500), R=gen.logu(1e15, 1e19), rr=gen.logu(3e-2, 30), eps=gen.logu(1e-9, 1e-3),
                                      M=gen.logu(1e6, 1e10), eta=gen.lin(0.05, 0.4), Rin=gen.lin(2, 20), Rratio=gen.logu(5, 500), nl=gen.pick(None, 7, 20), nphi=gen.pick(None, 5, 9), nmu=gen.pick(None, 8, 15), x=st.lists(gen.lin(-0.6, 5), min_size=1, max_size=4), line=gen.pick("Lyalpha", "CIV", "Hbeta"), **units()))


def fn_tau(c, ctx):
    """opacities of free parameters in any units, on default or own grids: those of an absorption object holding the same target and grids (where it lets them be chosen); non-trivial: absorption"""
    w, L, R = c["what"], c["L"], c["R"]
    r = R * c["rr"]
    ql, qL = (lambda x: q(x, "cm", c["ul"])), (lambda x: q(x, "erg s-1", c["uL"]))
    LU = L * u.Unit("erg s-1")
    ms = np.cos(np.radians(c["deg"])) if w.endswith("mu") else 1.0
    sizes = {}
    phi = np.linspace(0, 2 * np.pi, c["nphi"] or 50)
    mu = np.linspace(-1, 1, c["nmu"] or 100)
    M = c["M"] * ref.MSUN
    if w.startswith("ps"):
        if w == "ps":
            ms = np.cos(np.radians(c["deg"]))  # photons of one direction: the formula for the axis takes any angle
        t, eps = PointSourceBehindJet(LU, c["eps"]), c["eps"]
        targ = (eps, qL(L), ql(r))
        f = Absorption.evaluate_tau_ps_behind_blob if w == "ps" else Absorption.evaluate_tau_ps_behind_blob_mu_s
    elif w.startswith("dt"):
        t = RingDustTorus(LU, c["xi"], c["T"] * u.K, R * u.cm)
        eps = t.epsilon_dt
        targ = (qL(L), c["xi"], eps, ql(R), ql(r))
        f = Absorption.evaluate_tau_dt if w == "dt" else Absorption.evaluate_tau_dt_mu_s
        if c["nphi"]:
            sizes["phi" if w == "dt" else "phi_re"] = phi
        if c["nl"]:
            sizes["l_size" if w == "dt" else "u_size"] = c["nl"]
    elif w.startswith("blr"):
        t = SphericalShellBLR(LU, c["xi"], c["line"], R * u.cm)
        eps = t.epsilon_line
        targ = (qL(L), c["xi"], eps, ql(R), ql(r))
        f = Absorption.evaluate_tau_blr if w == "blr" else Absorption.evaluate_tau_blr_mu_s
        if c["nphi"]:
            sizes["phi"] = phi
        if c["nmu"]:
            sizes["mu"] = mu
        if c["nl"]:
            sizes["l_size" if w == "blr" else "u_size"] = c["nl"]
    else:
        Rg = ref.G * M / ref.C**2
        t = SSDisk(c["M"] * u.M_sun, LU, c["eta"], c["Rin"] * Rg * u.cm, c["Rin"] * c["Rratio"] * Rg * u.cm)
        r = Rg * 1e3 * c["rr"]
        eps = t.epsilon(c["Rin"] * np.sqrt(c["Rratio"]))
        targ = (q(c["M"], "M_sun", c["um"]), qL(L), c["eta"], ql(val(t.R_in, "cm")), ql(val(t.R_out, "cm")), ql(r))
        f = Absorption.evaluate_tau_ss_disk
        if c["nphi"]:
            sizes["phi"] = phi
        if c["nl"]:
            sizes["l_tilde_size"] = c["nl"]
    ctx.label(w)
    # threshold at the place of the region, near the axis the angle of the photons matters
    omc = 1 - ms if w == "ps" else 1.0
    if w == "disk":
        omc = 1 - (1 + (c["Rin"] * np.sqrt(c["Rratio"]) * Rg / r) ** 2) ** -0.5
    elif w == "dt":
        omc = 1 - (1 + (R / r) ** 2) ** -0.5
    nu = np.sort(10 ** np.array(c["x"])) / eps / omc * ref.MEC2 / ref.H / (1 + c["z"]) * u.Hz
    got = val(f(nu.to(c["uf"]), c["z"], ms, *targ, **sizes), "")
    a = Absorption(t, r * u.cm, z=c["z"], mu_s=ms)
    if c["nphi"]:
        a.set_phi(c["nphi"])
    if c["nmu"]:
        a.set_mu(c["nmu"])
    if c["nl"] and w not in ("dt_mu", "blr_mu"):
        a.set_l(c["nl"])
    method = getattr(a, {"ps": "tau_ps_behind_blob", "ps_mu": "tau_ps_behind_blob_mu_s", "disk": "tau_ss_disk", "blr": "tau_blr", "blr_mu": "tau_blr_mu_s", "dt": "tau_dt", "dt_mu": "tau_dt_mu_s"}[w])
    if w in ("dt_mu", "blr_mu") and (c["nl"] or c["nphi"] or c["nmu"]):
        # objects refine their grids in their own way at an angle: only linearity and the distance scaling are compared
        lin = val(f(nu, c["z"], ms, 3 * targ[0], *targ[1:], **sizes), "")
        close(lin, 3 * got, 1e-6, "three times the luminosity", atol=1e-300)
        targ2 = (targ[0], *targ[1:3], 2 * targ[3], 2 * targ[4])
        close(val(f(nu, c["z"], ms, *targ2, **sizes), ""), got / 2, 1e-5, "everything twice as large", floor=1e-6, atol=1e-300)
        return ctx.nontrivial(got.max() > 0)
    want = val(method(nu), "")
    ctx.nontrivial(want.max() > 0)
    lo, hi = (val(method(nu * s), "") for s in (1 - 1e-9, 1 + 1e-9))
    close(got, want, 1e-6, "opacity (%s)" % w, atol=2 * np.abs(hi - lo) + 1e-300)


def strat_thermal():
    return st.fixed_dictionaries(dict(what=gen.pick("torus", "torus_norm", "disk", "disk_norm"), z=gen.logu(1e-3, 5), dL=gen.logu(1e24, 1e29), L=gen.logu(1e40, 1e48), T=gen.lin(50, 5000), R=gen.logu(1e15, 1e21), M=gen.logu(1e6, 1e10), mdot=gen.logu(1e22, 1e28),
                                      Rin=gen.lin(2, 20), Rratio=gen.logu(5, 500), mus=gen.pick(None, 1.0, 0.5, 0.05), lx=st.lists(gen.lin(-4, 1.2), min_size=1, max_size=5), **units()))


def planck(nu, T):
    x = ref.H * nu / (ref.KB * np.where(T > 0, T, 1))
    return np.where(T > 0, 2 * ref.H * nu**3 / ref.C**2 / np.expm1(x), 0.0)


def fn_thermal(c, ctx):
    """black bodies of torus and disk with free temperature, radius, mass, accretion rate, luminosity and distance in any units: equal to the model (rings of Planck spectra), normalised or not; non-trivial: non-zero values"""
    w, z, dL, L = c["what"], c["z"], c["dL"], c["L"]
    ql = lambda x, k="ul": q(x, "cm", c[k])  # noqa: E731
    qL = q(L, "erg s-1", c["uL"])
    ctx.label(w)
    if w.startswith("torus"):
        T, R = c["T"], c["R"]
        nu = ref.KB * T / ref.H * 10 ** np.array(c["lx"]) / (1 + z)
        want = np.pi * (R / dL) ** 2 * nu * planck(nu * (1 + z), np.array(T))
        x = nu * u.Hz.to(c["uf"]) * u.Unit(c["uf"])
        if w == "torus":
            got = RingDustTorus.evaluate_bb_sed(x, z, T * u.K, ql(R), ql(dL, "ul2"))
        else:
            want = want * L / (4 * np.pi * R**2 * ref.SB * T**4)
            got = RingDustTorus.evaluate_bb_norm_sed(x, z, qL, T * u.K, ql(R), ql(dL, "ul2"))
            # recorded: the luminosity of the torus lacks a factor 1 + z
            if not np.allclose(val(got, FU), want, rtol=1e-5, atol=1e-90):
                want = want * (1 + z)
    else:
        M = c["M"] * ref.MSUN
        Rg = ref.G * M / ref.C**2
        Ri, Ro = c["Rin"] * Rg, c["Rin"] * c["Rratio"] * Rg
        md = c["mdot"]
        R = np.linspace(Ri, Ro, 100)
        T = (3 * ref.G * M * md * np.clip(1 - np.sqrt(Ri / R), 0, None) / (8 * np.pi * R**3 * ref.SB)) ** 0.25
        ms = 1.0 if c["mus"] is None else c["mus"]
        sed = lambda y: ms * y * 2 * np.pi / dL**2 * ref.trapz(R[:, None] * planck(y[None, :] * (1 + z), T[:, None]), R)  # noqa: E731
        nu = ref.KB * T.max() / ref.H * 10 ** np.array(c["lx"]) / (1 + z)
        want = sed(nu)
        x = nu * u.Hz.to(c["uf"]) * u.Unit(c["uf"])
        pars = (q(M, "g", c["um"]), q(md, "g s-1", "M_sun yr-1" if c["um"] == "M_sun" else "kg s-1"), ql(Ri), ql(Ro, "ul2"), ql(dL, "ul2"))
        tail = () if c["mus"] is None else (ms,)
        if w == "disk":
            got = SSDisk.evaluate_multi_T_bb_sed(x, z, *pars, *tail)
        else:
            g = np.logspace(3, 21, 100)
            want = want * L / (2 * 4 * np.pi * dL**2 * ref.trapz(sed(g) / g, g))
            got = SSDisk.evaluate_multi_T_bb_norm_sed(x, z, qL, *pars, *tail)
    got = val(got, FU)
    ctx.nontrivial(want.max() > 1e-60)
    ok = want > 1e-70
    close(got[ok], want[ok], 1e-5, "black body (%s)" % w)
    ensure(np.all(got[~ok] < 1e-69), "black body (%s) where there should be none" % w)


SUBS = [
    Sub("thermal", fn_thermal, strat_thermal, quick=600, thorough=15000, shards=4),
    Sub("synchrotron", fn_synch, strat_synch, quick=1200, thorough=30000, shards=5),
    Sub("self_compton", fn_ssc, strat_ssc, quick=160, thorough=5000, shards=5),
    Sub("external_compton", fn_ec, strat_ec, quick=800, thorough=15000, shards=8),
    Sub("opacity", fn_tau, strat_tau, quick=500, thorough=10000, shards=6),
]
