"""Plots and comparison helpers show and judge exactly the numbers they are given"""
import os
import shutil
import tempfile
from pathlib import Path

import numpy as np
import astropy.units as u
import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt
from hypothesis import strategies as st

from agnpy.utils import validation_utils as V
from agnpy.utils.plot import plot_sed
from vlib import build, gen, ref
from vlib.cmp import close, ensure, raises, val
from vlib.runner import Sub


def lines(ax):
    return [np.array([np.asarray(x.get_xdata(orig=False), float), np.asarray(x.get_ydata(orig=False), float)]) for x in ax.lines]


def strat():
    return st.fixed_dictionaries(dict(
        d=gen.dist(mass=gen.pick("e", "p"), gmin=(1.0, 1e4), decades=(1, 5)), power=gen.pick(0, 1, 2, 3, 2.5, -1), grid=gen.pick("own", "default", "ints"), ax=st.booleans(), label=gen.pick(None, "a", "b c"),
        nu=gen.freqs(1e8, 1e28, nmin=2, nmax=12), y=st.lists(gen.logu(1e-30, 1e3), min_size=12, max_size=12), color=gen.pick("r", "k"), other=st.booleans()))


def fn_plot(c, ctx):
    """SED and particle spectra: one curve is added, holding exactly the numbers given (times the power of the Lorentz factor), on logarithmic axes that name the quantities; on the axes given or else the current ones, which are returned; options reach the curve; the data are left alone; non-trivial: always"""
    ctx.nontrivial()
    plt.close("all")
    try:
        fig, axes = plt.subplots(1, 2)
        plt.sca(axes[1])
        ax = axes[0] if c["ax"] else axes[1]
        kw = dict(color=c["color"])
        if c["label"]:
            kw["label"] = c["label"]
        if c["other"]:
            ax.plot([1, 2], [3, 4])
        nu, y = np.array(c["nu"]) * u.Hz, np.array(c["y"][: len(c["nu"])]) * u.Unit("erg cm-2 s-1")
        kn, ky = nu.copy(), y.copy()
        got = plot_sed(nu, y, **({"ax": ax} if c["ax"] else {}), **kw)
        ensure(got is ax, "the SED was not drawn on the axes asked")
        ls = lines(ax)
        ensure(len(ls) == 1 + c["other"] and len(lines(axes[1 if c["ax"] else 0])) == 0, "%d curves" % len(ls))
        close(ls[-1], np.array([kn.value, ky.value]), 1e-12, "SED drawn")
        ensure(np.array_equal(nu.value, kn.value) and np.array_equal(y.value, ky.value), "the data were changed")
        ensure(ax.get_xscale() == ax.get_yscale() == "log", "scales")
        ensure("nu" in ax.get_xlabel() and "Hz" in ax.get_xlabel() and "erg" in ax.get_ylabel() and "cm" in ax.get_ylabel(), "labels %r %r" % (ax.get_xlabel(), ax.get_ylabel()))
        ensure(matplotlib.colors.same_color(ax.lines[-1].get_color(), c["color"]), "colour")
        if c["label"]:
            leg = ax.get_legend()
            ensure(leg is not None and c["label"] in [t.get_text() for t in leg.get_texts()], "legend")
        fig, axes = plt.subplots(1, 2)
        plt.sca(axes[1])
        ax = axes[0] if c["ax"] else axes[1]
        d = c["d"]
        dist = build.dist(d)
        g = {"own": np.exp(np.linspace(np.log(d["gamma_min"] * 0.51), np.log(d["gamma_max"] * 1.51), 13)), "default": np.logspace(0, 8, 200), "ints": np.unique(np.geomspace(1, d["gamma_max"] * 2, 9).astype(int))}[c["grid"]]
        if np.any(np.abs(g / d["gamma_min"] - 1) < 1e-8) or np.any(np.abs(g / d["gamma_max"] - 1) < 1e-8):
            return
        p = c["power"]
        if c["grid"] == "ints" and p == -1:
            return  # refused by numpy
        keep = g.copy()
        opt = {} if c["grid"] == "default" else dict(gamma=g)
        if p != 0:
            opt["gamma_power"] = p
        got = dist.plot(**opt, **({"ax": ax} if c["ax"] else {}), color=c["color"])
        ensure(got is ax, "the spectrum was not drawn on the axes asked")
        ls = lines(ax)
        ensure(len(ls) == 1 and len(lines(axes[1 if c["ax"] else 0])) == 0, "%d curves" % len(ls))
        gf = g.astype(float)
        close(ls[0][0], gf, 1e-12, "Lorentz factors drawn")
        close(ls[0][1], gf**p * ref.n_of(d, gf), 1e-8, "densities drawn", atol=1e-250)
        ensure(np.array_equal(g, keep), "the Lorentz factors were changed")
        ensure(ax.get_xscale() == ax.get_yscale() == "log" and "gamma" in ax.get_xlabel(), "axes of the spectrum")
        ensure("n(" in ax.get_ylabel() and (p == 0) == ("^{" + str(p) + "}" not in ax.get_ylabel()), "label %r for power %s" % (ax.get_ylabel(), p))
    finally:
        plt.close("all")


def strat_dev():
    return st.fixed_dictionaries(dict(
        x=gen.freqs(1e8, 1e28, nmin=2, nmax=12), y=st.lists(gen.logu(1e-30, 1e3), min_size=12, max_size=12), dev=st.lists(gen.lin(-0.3, 0.3), min_size=12, max_size=12), rtol=gen.logu(0.03, 0.29),
        lo=gen.lin(-0.1, 1.1), hi=gen.lin(-0.1, 1.1), rng=st.booleans(), unit=st.booleans(), xunit=st.booleans(), ends=st.booleans(), near=gen.pick(0, 0, 0, 1, -1, 1.04, -1.04), bad=st.lists(st.booleans(), min_size=12, max_size=12)))


def fn_dev(c, ctx):
    """the deviation is judged relative to the reference (not to the other curve), over the points within the range given only, its ends included; non-trivial: the tolerance separates the points"""
    x = np.array(sorted(set(c["x"])))
    ref_y = np.array(c["y"][: x.size])
    # some points deviate by hardly less or more than the tolerance
    y = ref_y * (1 + np.array([v if c["near"] == 0 else (c["near"] * c["rtol"] * (0.97 + 0.02 * v / 0.3) if bad else 0.0) for v, bad in zip(c["dev"], c["bad"])][: x.size]))
    dev = np.abs(y / ref_y - 1)
    L = np.log(x[-1] / x[0])
    lo, hi = sorted(float(x[0] * np.exp(w * L)) for w in (c["lo"], c["hi"]))
    if c["ends"]:  # points of the grid
        lo, hi = float(x[np.argmin(np.abs(np.log(x / lo)))]), float(x[np.argmin(np.abs(np.log(x / hi)))])
    m = (x >= lo) & (x <= hi) if c["rng"] else np.ones(x.size, bool)
    if np.all(np.abs(dev[m] / c["rtol"] - 1) > 1e-6):
        ctx.nontrivial(np.any(dev > c["rtol"]) and np.any(dev < c["rtol"]))
        want = bool(np.all(dev[m] <= c["rtol"]))
        un = u.Unit("erg cm-2 s-1") if c["unit"] else 1
        ux = u.Hz if c["xunit"] else 1
        got = V.check_deviation(x * ux, y * un, ref_y * un, c["rtol"], *([(lo * ux, hi * ux)] if c["rng"] else []))
        ensure(bool(got) == want, "deviations %s within %s judged %s" % (dev[m], c["rtol"], got))



def strat_files():
    return st.fixed_dictionaries(dict(
        x=gen.freqs(1e8, 1e28, nmin=2, nmax=12), y=st.lists(gen.logu(1e-30, 1e3), min_size=12, max_size=12), dev=st.lists(gen.lin(-0.3, 0.3), min_size=12, max_size=12),
        lo=gen.lin(-0.1, 1.1), hi=gen.lin(-0.1, 1.1), rng=st.booleans(), unit=st.booleans(), existing=gen.pick("no", "file inside", "nested"), form=gen.pick("str", "str sub", "path", "path sub"), kind=gen.pick("sed", "tau", "other"), second=st.booleans()))


class Recorded:
    """the real removal, for paths inside the scratch directory only"""

    def __init__(self, root):
        self.root, self.bad = os.path.realpath(root), []

    def rmtree(self, path, *a, **k):
        p = os.path.realpath(str(path))
        if not p.startswith(self.root + os.sep):
            self.bad.append(str(path))
            return
        shutil.rmtree(p)


def fn_files(c, ctx):
    """comparison with reference data: samples are read back with their units, the figure is written where asked, and a cleaned directory is empty without its neighbours being touched; non-trivial: always"""
    x = np.array(sorted(set(c["x"])))
    ref_y = np.array(c["y"][: x.size])
    y = ref_y * (1 + np.array(c["dev"][: x.size]))
    root = tempfile.mkdtemp(prefix="verif_c40_")
    rec = Recorded(root)
    real = V.shutil
    V.shutil = rec
    try:
        f = os.path.join(root, "s.csv")
        with open(f, "w") as fh:
            fh.write("# x, y\n" + "".join("%r,%r\n" % (float(a), float(b)) for a, b in zip(x, ref_y)))
        a, b = V.extract_columns_sample_file(f, "GHz", *(["erg cm-2 s-1"] if c["unit"] else []))
        close(val(a, "Hz"), x * 1e9, 1e-12, "abscissae of the sample file")
        close(val(b, "erg cm-2 s-1") if c["unit"] else np.asarray(b), ref_y, 1e-12, "ordinates of the sample file")
        L = np.log(x[-1] / x[0])
        lo, hi = sorted(float(x[0] * np.exp(w * L)) for w in (c["lo"], c["hi"]))
        ctx.nontrivial()
        # directories
        main = os.path.join(root, "figs")
        if c["existing"] != "no":
            os.makedirs(os.path.join(main, "sub", "deep"))
            for n in ("x.txt", "sub/y.txt", "sub/deep/z.txt"):
                Path(main, n).write_text("1")
        beside = Path(root, "beside.txt")
        beside.write_text("2")
        sub = c["form"].endswith("sub")
        arg = (main if c["form"].startswith("str") else Path(main),) + (("sub",) if sub else ())
        got = V.clean_and_make_dir(*arg)
        want = Path(main, "sub") if sub else Path(main)
        ensure(Path(got) == want and want.is_dir() and not os.listdir(want), "%s: %s" % (got, os.listdir(want) if want.is_dir() else "missing"))
        ensure(beside.exists() and (not sub or c["existing"] == "no" or Path(main, "x.txt").exists()), "files beside the directory were removed")
        ensure(not rec.bad, "removal of %s" % rec.bad)
        raises(TypeError, lambda: V.clean_and_make_dir(5), "a number as directory")
        fig = want / "f.png"
        n = len(plt.get_fignums())
        shown = []
        save = matplotlib.figure.Figure.savefig

        def recording(fig_, *args, **kw):
            shown.extend([lines(q) for q in fig_.axes])
            return save(fig_, *args, **kw)

        matplotlib.figure.Figure.savefig = recording
        try:
            V.make_comparison_plot(x, y, ref_y, "a", "b", "t", fig, c["kind"], comparison_range=[lo, hi] if c["rng"] else None, y_range=[1e-30, 1e3] if c["unit"] else None, **(dict(second_ref_x=1.7 * x, second_ref_y=0.3 * y) if c["second"] else {}), **(dict(x_label="q", y_label="w") if c["kind"] == "other" else {}))
        finally:
            matplotlib.figure.Figure.savefig = save
        if shown:  # unless written by other means
            for what, cur, k in (("reference", (x, ref_y), 0), ("comparison", (x, y), 0), ("deviation", (x, y / ref_y - 1), 1)):
                ensure(any(q.shape == np.shape(cur) and np.allclose(q, cur, rtol=1e-9, atol=1e-12 if k else 0) for q in shown[k]), "the %s is not shown" % what)
            third = any(np.shape(q) == np.shape((x, y)) and np.allclose(q, (1.7 * x, 0.3 * y), rtol=1e-9, atol=0) for q in shown[0])
            ensure(third == bool(c["second"]), "second reference asked for: %s, shown: %s" % (bool(c["second"]), third))
        ensure(fig.exists() and fig.stat().st_size > 1000, "no figure")
        ensure(len(plt.get_fignums()) == n, "the figure was left open")
    finally:
        V.shutil = real
        plt.close("all")
        shutil.rmtree(root, ignore_errors=True)


SUBS = [Sub("plots", fn_plot, strat, quick=160, thorough=3000, shards=8), Sub("deviation", fn_dev, strat_dev, quick=2000, thorough=60000, shards=2), Sub("comparison", fn_files, strat_files, quick=48, thorough=1000, shards=8)]
