"""Printed summaries"""
import re

import numpy as np
import astropy.units as u
from hypothesis import strategies as st

from agnpy.emission_regions import Blob
from agnpy.spectra import InterpolatedDistribution
from agnpy.targets import RingDustTorus, SphericalShellBLR, SSDisk, lines_dictionary
from vlib import build, gen, ref
from vlib.cmp import ensure
from vlib.runner import Sub

ENTRY = re.compile(r"^\s*-\s*([A-Za-z_][\w()]*)\s*(?:\(.*?\))?\s*:\s*(.*?)\s*$")
NUMBER = re.compile(r"^([-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?|[-+]?(?:nan|inf))\s*(.*)$")
ALIAS = {"dot(m)": "m_dot"}


def entries(text):
    """{name: printed value} of a summary"""
    out = {}
    for l in text.splitlines():
        m = ENTRY.match(l)
        if m:
            ensure(m.group(1) not in out, "%r is stated twice:\n%s" % (m.group(1), text))
            out[m.group(1)] = m.group(2)
    return out


def agrees(name, printed, value, unit):
    """value (float, in unit) within the digits printed"""
    m = NUMBER.match(printed)
    ensure(m is not None, "%s: %r is not a number" % (name, printed))
    num, un = m.groups()
    got = float(num)
    mant, _, ex = num.lower().partition("e")
    half = 0.501 * 10.0 ** ((int(ex) if ex else 0) - (len(mant.split(".")[1]) if "." in mant else 0))
    try:
        f = u.Unit(un).to(unit) if un else u.Unit("").to(unit)
    except u.UnitConversionError:
        ensure(False, "%s is printed as %r, not in %s" % (name, printed, unit or "plain numbers"))
    ensure(abs(got * f - value) <= half * f + 1e-9 * abs(value), "%s is printed as %r, its value is %.6g %s" % (name, printed, value, unit))


def judge(text, want, ctx, title):
    e = entries(text)
    for name, (value, unit) in want.items():
        ensure(name in e, "%s: %s is not mentioned in\n%s" % (title, name, text))
        agrees("%s: %s" % (title, name), e[name], value, unit)


def dist_want(d):
    w = {k: (v, "") for k, v in build.shape_params(d).items()}
    w.update(k=(d["k"], "cm-3"), gamma_min=(d["gamma_min"], ""), gamma_max=(d["gamma_max"], ""))
    return w


def kind(text, mass, title):
    head = text.strip().splitlines()[0]
    ensure(("electron" in head) == (mass == "e") and ("proton" in head) == (mass == "p"), "%s is announced as %r" % (title, head))


def strat_dist():
    return st.fixed_dictionaries(dict(d=gen.dist(mass=st.sampled_from(["e", "p"])), d2=gen.dist(mass=st.just("e")), norm=gen.logu(1e-3, 1e3), unit=gen.pick("cm-3", "m-3"), empty=st.tuples(st.integers(0, 3), st.integers(0, 3))))


def fn_dist(c, ctx):
    """the summary of a particle distribution states its species and all its current parameters, also after they were changed; non-trivial: always"""
    d = c["d"]
    ctx.nontrivial()
    o = build.dist(d)
    text = str(o)
    kind(text, d["mass"], d["shape"])
    ctx.label(d["shape"])
    judge(text, dist_want(d), ctx, d["shape"])
    if c["d2"]["shape"] == d["shape"]:
        ctx.label("changed")
        new = c["d2"]
        for k in build.shape_params(new):
            setattr(o, k, new[k])
        o.gamma_min, o.gamma_max, o.k = new["gamma_min"], new["gamma_max"], (new["k"] * u.Unit("cm-3")).to(c["unit"])
        judge(str(o), dist_want(new), ctx, "changed " + d["shape"])
        kind(str(o), d["mass"], "changed " + d["shape"])
    g = np.geomspace(d["gamma_min"], d["gamma_max"], 12)
    n = g**-2.0
    # empty ends do not count
    lo, hi = c["empty"]
    n[:lo] = 0
    n[len(n) - hi:] = 0
    i = InterpolatedDistribution(g, n * u.Unit("cm-3"), norm=c["norm"], mass=build.MASS[d["mass"]])
    kind(str(i), d["mass"], "interpolated distribution")
    judge(str(i), dict(norm=(c["norm"], ""), gamma_min=(g[lo], ""), gamma_max=(g[-1 - hi], "")), ctx, "interpolated distribution")


def strat_blob():
    return st.fixed_dictionaries(dict(b=gen.blob(n_p=gen.dist(mass="p")), protons=st.booleans(), B2=gen.logu(1e-4, 1e2), R2=gen.logu(1e13, 1e18), d2=gen.lin(1.01, 2), z2=gen.lin(0.0, 3),
                                      Bu=gen.pick("G", "mG", "T"), Ru=gen.pick("cm", "pc", "lyr", "km"), xi2=gen.logu(1e-8, 1), n_e=gen.dist()))


def blob_want(b, blob):
    beta = np.sqrt(1 - 1 / b["Gamma"] ** 2)
    R, z = b["R_b"], b["z"]
    return dict(
        R_b=(R, "cm"), t_var=((1 + z) * R / (ref.C * b["delta_D"]) / 86400, "d"), V_b=(4 / 3 * np.pi * R**3, "cm3"), z=(z, ""), d_L=(blob.d_L.to_value("cm"), "cm"),
        delta_D=(b["delta_D"], ""), Gamma=(b["Gamma"], ""), Beta=(beta, ""),
        # rounding of the cosine of small angles
        theta_s=(blob.theta_s.to_value("deg"), "deg"), B=(b["B"] * 1e-4, "T"), xi=(b["xi"], ""),
    )


def split(text):
    """(heading block, block, ...) of a summary; the blocks begin with '*'"""
    return [l for l in re.split(r"(?m)^(?=\s*\*)", text) if l.strip()]


def check_blob(blob, b, ctx, title):
    parts = split(str(blob))
    pops = [b["n_e"]] + ([b["n_p"]] if b["n_p"] else [])
    ensure(len(parts) == 1 + len(pops), "%s: %d populations of particles in\n%s" % (title, len(parts) - 1, str(blob)))
    want = blob_want(b, blob)
    want["B"] = (b["B"], "G")
    e = entries(parts[0])
    m = NUMBER.match(e.get("B", ""))
    if m and m.group(2) == "T":
        want["B"] = (b["B"] * 1e-4, "T")
    elif m and m.group(2):
        want["B"] = (u.Quantity(b["B"], "G").to_value(m.group(2), equivalencies=[(u.G, u.T, lambda x: x * 1e-4, lambda x: x * 1e4)]), m.group(2))
    judge(parts[0], want, ctx, title)
    for d, text in zip(pops, parts[1:]):
        kind(text, d["mass"], title)
        judge(text, dist_want(d), ctx, "%s, %s" % (title, d["shape"]))


def fn_blob(c, ctx):
    """the summary of an emission region states radius, volume, variability time, redshift, distance, kinematics, field, xi and both populations as they are now, in their units, also after changes; non-trivial: always"""
    b = dict(c["b"])
    if not c["protons"]:
        b["n_p"] = None
    ctx.nontrivial()
    ctx.label("with protons" if c["protons"] else "without protons")
    blob = build.blob(b)
    check_blob(blob, b, ctx, "blob")
    new = dict(b, B=c["B2"], R_b=c["R2"], z=c["z2"], xi=c["xi2"], n_e=c["n_e"])
    blob.B = (c["B2"] * 1e-4 * u.T) if c["Bu"] == "T" else (c["B2"] * u.G).to(c["Bu"])
    blob.R_b = (c["R2"] * u.cm).to(c["Ru"])
    blob.z, blob.xi, blob.n_e = c["z2"], c["xi2"], build.dist(c["n_e"])
    check_blob(blob, new, ctx, "changed blob")


def strat_targets():
    L = gen.logu(1e42, 1e48)
    return st.fixed_dictionaries(dict(L=L, L2=L, M=gen.logu(1e6, 1e10), eta=gen.lin(0.05, 0.4), Ri=gen.lin(3, 20), ratio=gen.logu(2, 1e3), xi=gen.lin(0.01, 0.9), T=gen.logu(100, 2000), R=gen.logu(1e15, 1e19),
                                      line=st.sampled_from(sorted(lines_dictionary)), rg=st.booleans(), Lu=gen.pick("erg s-1", "W", "solLum"), Ru=gen.pick("cm", "pc", "m"), free=st.booleans()))


def fn_targets(c, ctx):
    """the summaries of disk, BLR and torus state their parameters in physical units whatever units they were given in, also after the luminosity is changed; non-trivial: always"""
    ctx.nontrivial()
    L, R = (c["L"] * u.Unit("erg s-1")).to(c["Lu"]), (c["R"] * u.cm).to(c["Ru"])
    M = c["M"] * ref.MSUN
    Rg = ref.G * M / ref.C**2
    Ri, Ro = c["Ri"] * Rg, c["Ri"] * c["ratio"] * Rg
    disk = SSDisk(c["M"] * u.M_sun, L, c["eta"], c["Ri"], c["Ri"] * c["ratio"], R_g_units=True) if c["rg"] else SSDisk(c["M"] * u.M_sun, L, c["eta"], (Ri * u.cm).to(c["Ru"]), (Ro * u.cm).to(c["Ru"]))
    ctx.label("disk in gravitational radii" if c["rg"] else "disk in lengths")
    blr = SphericalShellBLR(L, c["xi"], c["line"], R)
    dt = RingDustTorus(L, c["xi"], c["T"] * u.K, **({} if c["free"] else dict(R_dt=R)))
    # sublimation radius
    Rdt = 3.5e18 * np.sqrt(c["L"] / 1e45) * (c["T"] / 1e3) ** -2.6 if c["free"] else c["R"]
    judge(str(disk), dict([("dot(m)", (c["L"] / (c["eta"] * ref.C**2), "g s-1"))], M_BH=(M, "g"), L_disk=(c["L"], "erg s-1"), eta=(c["eta"], ""), R_in=(Ri, "cm"), R_out=(Ro, "cm")), ctx, "disk")
    judge(str(blr), dict(L_disk=(c["L"], "erg s-1"), xi_line=(c["xi"], ""), R_line=(c["R"], "cm")), ctx, "BLR")
    line = entries(str(blr)).get("line", "")
    name, _, rest = line.partition(",")
    ensure(name.strip() == c["line"], "BLR: line %r is printed for %s" % (line, c["line"]))
    wl = lines_dictionary[c["line"]]["lambda"].to_value("cm")
    if "=" in rest:
        agrees("BLR: wavelength", rest.split("=")[1].strip(), wl, "cm")
    judge(str(dt), dict(L_disk=(c["L"], "erg s-1"), xi_dt=(c["xi"], ""), T_dt=(c["T"], "K"), R_dt=(Rdt, "cm")), ctx, "torus")
    for o in (disk, blr, dt):
        o.L_disk = c["L2"] * u.Unit("erg s-1")
        agrees("changed luminosity", entries(str(o))["L_disk"], c["L2"], "erg s-1")


SUBS = [
    Sub("distributions", fn_dist, strat_dist, quick=300, thorough=10000, shards=4),
    Sub("emission_region", fn_blob, strat_blob, quick=240, thorough=10000, shards=4),
    Sub("targets", fn_targets, strat_targets, quick=300, thorough=10000, shards=4),
]
