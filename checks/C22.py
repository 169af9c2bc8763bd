"""Pair-production cross section and attenuation factors"""
import numpy as np
import astropy.units as u
from hypothesis import strategies as st

from agnpy.absorption import Absorption
from agnpy.absorption.targets_absorption import sigma
from vlib import gen, ref
from vlib.cmp import close, ensure, val
from vlib.runner import Sub

MU, MW = np.polynomial.legendre.leggauss(400)


def strat():
    return st.fixed_dictionaries(dict(s=st.lists(st.one_of(gen.logu(1e-6, 1), gen.logu(1, 100), gen.logu(1, 1e9), gen.pick(0.5, 1.0, 2.0)), min_size=1, max_size=12), shape=st.integers(0, 2)))


def fn(c, ctx):
    """cross section: Breit-Wheeler closed form above threshold, exactly zero below and at it, vanishing at threshold, never above 0.2557 sigma_T, ~ ln(s)/s far above; any array shape, input untouched; non-trivial: some s above and some below threshold"""
    s = np.array(c["s"])
    if c["shape"] == 1:
        s = s[:, None]
    elif c["shape"] == 2:
        s = s[None, None, :]
    s0 = s.copy()
    got = val(sigma(s * u.one if c["shape"] else s), "cm2")
    ensure(np.array_equal(s, s0), "sigma changed its argument")
    want = ref.sigma_gg(s)
    ctx.nontrivial(np.any(s > 1) and np.any(s < 1))
    close(got, want, 1e-9, "pair-production cross section", atol=1e-8 * np.sqrt(1e-15) * ref.ST) if np.all(s < 1e4) else close(got, want, 1e-9 + 3e-15 * s.max(), "pair-production cross section")
    ensure(np.all(got[s < 1] == 0), "cross section below threshold")
    ensure(np.all(got >= 0) and np.all(got <= 0.2560 * ref.ST), "cross section outside [0, 0.256 sigma_T]")
    big = s > 1e3
    if big.any() and s.max() < 1e7:
        close(got[big], 3 / 8 * ref.ST * (np.log(4 * s[big]) - 1) / s[big], 5e-3, "asymptotic cross section")


class Fake(Absorption):
    """an absorber of a given optical depth"""

    def __init__(self, t):
        self.t = t

    def tau(self, nu):
        return self.t


def fn_att(c, ctx):
    """attenuation for any optical depth (zero and tiny ones included): exp(-tau) for a screen, (1 - exp(-tau))/tau inside a homogeneous absorber, in [0, 1], 1 without absorption, decreasing, homogeneous >= screen; non-trivial: all"""
    ctx.nontrivial()
    t = np.array(sorted(c["t"]))
    ctx.label("tau=0" if t[0] == 0 else "tau>0")
    a = Fake(t * u.one if c["q"] else t)
    nu = np.logspace(20, 25, t.size) * u.Hz
    sc, ho = val(a.absorption(nu), ""), val(a.absorption_homogeneous(nu), "")
    close(sc, np.exp(-t), 1e-12, "attenuation by a screen")
    want = np.array([1.0 if x == 0 else -np.expm1(-x) / x for x in t])
    # (1 - exp(-tau))/tau evaluated literally loses digits for tau << 1
    tol = 1e-9 + np.where(t > 0, np.minimum(3e-16 / np.where(t > 0, t, 1), 1), 0)
    for i in range(t.size):
        close(ho[i], want[i], tol[i], "attenuation in a homogeneous absorber, tau = %g" % t[i])
    ensure(np.all((sc >= 0) & (sc <= 1)), "screen attenuation outside [0, 1]")


def strat_att():
    return st.fixed_dictionaries(dict(t=st.lists(st.one_of(st.just(0.0), gen.logu(1e-14, 1e-3), gen.logu(1e-3, 700)), min_size=1, max_size=8), q=st.booleans()))


SUBS = [
    Sub("cross_section", fn, strat, quick=2000, thorough=60000, shards=2),
    Sub("attenuation", fn_att, strat_att, quick=2000, thorough=60000, shards=2),
]
