"""EBL absorption"""
import os

import numpy as np
import astropy.units as u
from astropy.io import fits
from hypothesis import strategies as st

from agnpy.absorption import EBL, ebl_files_dict
from vlib import gen, ref, runner
from vlib.cmp import close, ensure, raises, val
from vlib.runner import Sub

FILES = {"franceschini_2008": "ebl_franceschini", "franceschini_2017": "ebl_franceschini_2017", "dominguez_2011": "ebl_dominguez11", "finke_2010": "frd_abs",
         "saldana_lopez_2021": "ebl_saldana-lopez_2021"}
KEV = 1.602176634e-9
_T, _M = {}, {}


def table(m):
    """the published table: energies (keV), redshifts, attenuation[z, E], read independently of the package"""
    if m not in _T:
        with fits.open(os.path.join(runner.REPO, "agnpy", "data", "ebl_models", FILES[m] + ".fits.gz")) as f:
            e = np.sqrt(np.array(f["ENERGIES"].data["ENERG_LO"], float) * np.array(f["ENERGIES"].data["ENERG_HI"], float))
            z, v = np.array(f["SPECTRA"].data["PARAMVAL"], float), np.array(f["SPECTRA"].data["INTPSPEC"], float)
        keep = np.concatenate([[True], np.diff(z) > 0])
        _T[m] = e, z[keep], v[keep]
    return _T[m]


def model(m):
    if m not in _M:
        _M[m] = EBL(m)
    return _M[m]


def strat():
    return st.fixed_dictionaries(dict(m=st.sampled_from(sorted(FILES)), e=st.lists(gen.lin(-0.05, 1.05), min_size=1, max_size=8), node=st.booleans(), z=st.one_of(gen.lin(0, 1), gen.lin(-0.02, 1.1), gen.logu(1e-4, 1)),
                                      unit=gen.pick("Hz", "keV", "TeV", "m"), fresh=gen.pick(True, False, False, False, False, False, False, False)))


def fn(c, ctx):
    """attenuation of every model at any energy and redshift: bilinear interpolation of its published table, exact at the nodes, within [0, 1], nothing outside the table, frequencies as energies or wavelengths, unknown models refused; non-trivial: attenuation strictly between 0 and 1"""
    m = c["m"]
    e, zs, v = table(m)
    ebl = EBL(m) if c["fresh"] else model(m)
    # energies drawn in the range where something happens, in log
    lo, hi = np.log(e[0]), np.log(e[-1])
    E = np.exp(lo + (hi - lo) * np.array(c["e"]))
    z = zs[0] + (zs[-1] - zs[0]) * c["z"]
    if c["node"]:
        E = e[np.argmin(np.abs(np.log(E[:, None] / e[None, :])), axis=1)]
        z = zs[np.argmin(np.abs(zs - z))]
    # away from the very edge of the table, where rounding of the unit conversion decides
    E = E[(np.abs(E / e[0] - 1) > 1e-9) & (np.abs(E / e[-1] - 1) > 1e-9)]
    if E.size == 0:
        return
    want = np.full(E.size, np.nan)
    if zs[0] <= z <= zs[-1]:
        j = min(max(np.searchsorted(zs, z, side="right") - 1, 0), zs.size - 2)
        t = (z - zs[j]) / (zs[j + 1] - zs[j])
        row = v[j] * (1 - t) + v[j + 1] * t
        ok = (E > e[0]) & (E < e[-1])
        want[ok] = np.interp(E[ok], e, row)
    nu = (E * u.keV).to(c["unit"], equivalencies=u.spectral())
    got = np.asarray(ebl.absorption(nu, float(z)), float)
    ensure(got.shape == E.shape, "shape of the attenuation")
    ctx.nontrivial(np.any((want > 1e-4) & (want < 0.9999)))
    ctx.label(m)
    close(got, want, 1e-5, "attenuation of %s at z = %g" % (m, z), atol=1e-7)
    fin = np.isfinite(got)
    ensure(np.all((got[fin] >= 0) & (got[fin] <= 1 + 1e-6)), "attenuation outside [0, 1]")
    close(np.asarray(ebl.absorption(nu[::-1], float(z)), float)[::-1], got, 0, "order of the energies")
    close(np.asarray(ebl.absorption(nu[-1:], float(z)), float), got[-1:], 0, "one energy alone")
    raises(ValueError, lambda: EBL(m + "x"), "unknown EBL model")
    ensure(sorted(ebl_files_dict) == sorted(FILES), "list of the models")


def fn_mono(c, ctx):
    """each model: attenuation does not increase with redshift (1e-3 tolerance of the tables), full transmission nearby at low energies, all models agree within 0.35 where they overlap; non-trivial: all"""
    ctx.nontrivial()
    E = 10 ** c["lE"]  # TeV
    zz = np.array(sorted(c["z"]))
    nu = np.array([E]) * u.TeV
    out = {}
    for m in FILES:
        e, zs, v = table(m)
        if not (e[0] < E * 1e9 < e[-1]):
            continue
        a = [float(model(m).absorption(nu, x)[0]) for x in zz if zs[0] <= x <= zs[-1]]
        ensure(all(y <= x + 2e-3 for x, y in zip(a, a[1:])), "attenuation of %s increases with redshift: %s" % (m, a))
        out[m] = {x: y for x, y in zip([x for x in zz if zs[0] <= x <= zs[-1]], a)}
        if E < 0.01:
            ensure(all(y > 0.98 for x, y in out[m].items() if x < 0.5), "absorption at 10 GeV nearby: %s" % out[m])
    for x in zz:
        vals = [d[x] for d in out.values() if x in d]
        if len(vals) > 1:
            ensure(max(vals) - min(vals) < 0.35, "models disagree at E=%g TeV z=%g: %s" % (E, x, {m: d.get(x) for m, d in out.items()}))


def strat_mono():
    return st.fixed_dictionaries(dict(lE=gen.lin(-2.3, 1.3), z=st.lists(gen.lin(0.02, 1.0), min_size=2, max_size=5, unique=True)))


SUBS = [
    Sub("tables", fn, strat, quick=1500, thorough=40000, shards=3),
    Sub("models", fn_mono, strat_mono, quick=500, thorough=10000, shards=2),
]
