"""Loading of flux points for a fit"""
import os
import tempfile

import numpy as np
import astropy.units as u
from astropy.table import Table
from hypothesis import strategies as st

from agnpy.fit import load_gammapy_flux_points, load_sherpa_flux_points
from vlib import gen
from vlib.cmp import close, ensure, val
from vlib.runner import Sub

NAMES = ["Fermi-LAT", "MAGIC", "Swift/XRT", "OVRO", "VLBA(BK150)", "UVOT", "a b", "Fermi"]
FU = "erg cm-2 s-1"


@st.composite
def table(draw):
    """flux points of some instruments, in any order of the instruments; energies increase within each instrument"""
    rows = []
    for name in draw(st.lists(gen.pick(*NAMES), min_size=1, max_size=4, unique=True)):
        E = draw(gen.logu(1e-6, 1e12))
        for step in draw(st.lists(gen.logu(1.01, 30), min_size=0, max_size=6)) + [None]:
            f = draw(gen.logu(1e-16, 1e-8))
            rows.append([float("%.12g" % E), f, f * draw(gen.logu(1e-3, 2)), f * draw(gen.logu(1e-3, 2)), name])
            E *= step or 1
    pos = draw(st.permutations(range(len(rows)))) if draw(st.booleans()) else range(len(rows))
    # shuffle the instruments among the rows, keep the order within each
    names = [rows[i][4] for i in pos]
    queue = {n: [r for r in rows if r[4] == n] for n in set(names)}
    return [queue[n].pop(0) for n in names]


def strat():
    return st.fixed_dictionaries(dict(rows=table(), syst=st.one_of(st.none(), *[st.dictionaries(gen.pick(*(NAMES + ["MAG", "other"])), gen.pick(0.0, 0.05, 0.1, 0.3, 1.0), min_size=k, max_size=6) for k in (0, 3)]), lo=gen.lin(-0.2, 1.2), hi=gen.lin(-0.2, 1.2), unit=gen.pick("eV", "TeV", "erg"), cols=st.permutations(["e_ref", "e2dnde", "e2dnde_errn", "e2dnde_errp", "instrument"])))


def fn(c, ctx):
    """every point is loaded once, with its energy, flux, statistical error (mean of both sides for sherpa) and the systematic error of its own instrument (none when not listed), grouped by instrument, and only points within the energy range are used in the fit; the table and the dictionary are left alone; non-trivial: some instruments have systematics and others not, or some points are excluded"""
    rows = c["rows"]
    E = np.array([r[0] for r in rows])
    L = np.log10(E.max() / E.min()) + 0.1
    lo, hi = sorted(E.min() * 10 ** (L * np.array([c["lo"], c["hi"]])))
    if np.any(np.abs(E / lo - 1) < 1e-6) or np.any(np.abs(E / hi - 1) < 1e-6) or hi < lo * 1.001:
        return
    t = Table(rows=rows, names=["e_ref", "e2dnde", "e2dnde_errn", "e2dnde_errp", "instrument"])[c["cols"]]
    t["e_ref"].unit = "eV"
    for k in ("e2dnde", "e2dnde_errn", "e2dnde_errp"):
        t[k].unit = FU
    t.meta["SED_TYPE"] = "e2dnde"
    syst = None if c["syst"] is None else dict(c["syst"])
    e1, e2 = [(x * u.eV).to(c["unit"]) for x in (lo, hi)]
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, "sed.ecsv")
        t.write(path)
        with open(path, "rb") as f:
            raw = f.read()
        args = (path, e1, e2) if syst is None else (path, e1, e2, syst)
        sh = load_sherpa_flux_points(*args)
        ds = load_gammapy_flux_points(*args)
        with open(path, "rb") as f:
            ensure(f.read() == raw, "the file was modified")
    ensure(syst == c["syst"], "the dictionary of systematics was modified")
    rel = syst or {}
    names = sorted({r[4] for r in rows})
    known = [n in rel for n in names]
    inside = (E > lo) & (E < hi)
    ctx.nontrivial((any(known) and not all(known)) or (inside.any() and not inside.all()))
    ctx.label("no systematics" if syst is None else "some" if any(known) and not all(known) else "all" if all(known) else "none listed")
    ensure(sorted(ds.names) == names, "datasets %s" % list(ds.names))
    by = {n: np.array([r[:4] for r in rows if r[4] == n]) for n in names}
    want = np.concatenate([by[n] for n in names])
    sy = np.concatenate([rel.get(n, 0.0) * by[n][:, 1] for n in names])
    # sherpa: points of each instrument together, in the order of the table
    x = np.asarray(sh.x, float)
    o, w = np.argsort(x, kind="stable"), np.argsort(want[:, 0], kind="stable")
    if len(np.unique(x)) < len(x):
        o = w = slice(None)  # equal energies of two instruments: compare in the order of the names
    close(x[o], want[w, 0], 1e-12, "sherpa energies")
    close(np.asarray(sh.y, float)[o], want[w, 1], 1e-12, "sherpa fluxes")
    stat = (want[:, 2] + want[:, 3]) / 2
    close(np.asarray(sh.get_staterror(), float)[o], stat[w], 1e-9, "sherpa statistical errors")
    close(np.asarray(sh.get_syserror(), float)[o], sy[w], 1e-9, "sherpa systematic errors", atol=1e-60)
    close(np.asarray(sh.get_error(), float)[o], np.hypot(stat, sy)[w], 1e-9, "sherpa errors")
    mask = np.broadcast_to(sh.mask, x.shape)
    ensure(np.array_equal(mask, (x > lo) & (x < hi)), "sherpa uses %s of the energies %s between %g and %g eV" % (mask, x, lo, hi))
    for n in names:
        d = ds[n]
        b = by[n]
        close(val(d.data.energy_ref, "eV"), b[:, 0], 1e-9, "gammapy energies")
        s = rel.get(n, 0.0) * b[:, 1]
        for k, wv in (("e2dnde", b[:, 1]), ("e2dnde_errn", np.hypot(b[:, 2], s)), ("e2dnde_errp", np.hypot(b[:, 3], s))):
            close(val(getattr(d.data, k).quantity, FU).ravel(), wv, 1e-6, "gammapy %s of %s" % (k, n))
        m = np.asarray(d.mask_fit.data).ravel()
        e = b[:, 0]
        ensure(m.shape == e.shape, "mask of shape %s" % (m.shape,))
        ensure(not np.any(m & ~((e > lo) & (e < hi))), "gammapy uses points out of the range: %s of %s" % (m, e))
        # gammapy selects the points whose bin is in the range
        mid = np.sqrt(e[1:] * e[:-1])
        left = np.concatenate([[e[0] ** 1.5 / e[1] ** 0.5], mid]) if len(e) > 1 else e
        right = np.concatenate([mid, [e[-1] ** 1.5 / e[-2] ** 0.5]]) if len(e) > 1 else e
        sure = (left > lo * 1.001) & (right < hi / 1.001)
        ensure(np.all(m[sure]), "gammapy does not use points in the range: %s of %s, %g to %g eV" % (m, e, lo, hi))


SUBS = [Sub("load", fn, strat, quick=250, thorough=6000, shards=8)]
