"""Hypothesis strategies producing JSON-able descriptions of agnpy objects."""
import math

from hypothesis import strategies as st

N = 2000


def _sig(x, n=6):
    return float("%.*g" % (n, x))


def lin(lo, hi, n=N):
    """uniform on [lo, hi] (end points included)"""
    return st.integers(0, n).map(lambda i: _sig(lo + (hi - lo) * i / n, 8))


def logu(lo, hi, n=N, sig=6):
    """log-uniform on [lo, hi]"""
    a, b = math.log10(lo), math.log10(hi)
    return st.integers(0, n).map(lambda i: _sig(10 ** (a + (b - a) * i / n), sig))


def pick(*xs):
    return st.sampled_from(list(xs))


SHAPES = ["PowerLaw", "BrokenPowerLaw", "LogParabola", "ExpCutoffPowerLaw", "ExpCutoffBrokenPowerLaw"]


@st.composite
def dist(draw, shapes=SHAPES, mass="e", k=None, gmin=(1.0, 1e4), decades=(0.3, 7.0), gmax_cap=1e9, integrator=None):
    """one of the five analytic particle distributions; all parameters free"""
    shape = draw(pick(*shapes))
    g1 = draw(logu(*gmin))
    dec = draw(lin(*decades))
    g2 = _sig(min(g1 * 10**dec, gmax_cap))
    if g2 <= g1 * 1.5:
        g2 = _sig(g1 * 1.5)
    kk = draw(k if k is not None else logu(1e-12, 1e8))
    idx = lin(0.2, 4.5)
    # break / pivot / cutoff: mostly inside, sometimes outside the allowed range
    where = draw(lin(-0.2, 1.2))
    gb = _sig(g1 * (g2 / g1) ** where)
    gb = max(gb, 1e-2)
    if shape == "PowerLaw":
        p = dict(p=draw(idx))
    elif shape == "BrokenPowerLaw":
        p = dict(p1=draw(idx), p2=draw(idx), gamma_b=gb)
    elif shape == "LogParabola":
        p = dict(p=draw(idx), q=draw(lin(-0.1, 0.6)), gamma_0=gb)
    elif shape == "ExpCutoffPowerLaw":
        p = dict(p=draw(idx), gamma_c=_sig(g1 * (g2 / g1) ** draw(lin(0.3, 1.3))))
    else:
        p = dict(p1=draw(idx), p2=draw(idx), gamma_c=_sig(g1 * (g2 / g1) ** draw(lin(0.3, 1.3))), gamma_b=gb)
    d = dict(shape=shape, k=kk, gamma_min=g1, gamma_max=g2, mass=mass if isinstance(mass, str) else draw(mass), **p)
    if integrator is not None:
        d["integrator"] = draw(integrator)
    return d


@st.composite
def blob(draw, n_e=None, n_p=None, sizes=(100, 200), theta=None):
    """physical ranges of blazar emission regions; Doppler factor and Lorentz factor mutually consistent"""
    Gamma = draw(lin(1.1, 50))
    beta = math.sqrt(1 - 1 / Gamma**2)
    # viewing angle between 0 and 60 degrees
    th = draw(pick(0.0, None, None, None, None)) if theta is None else draw(theta)
    if th is None:
        th = draw(logu(3e-2, 60.0))
    delta = _sig(1 / (Gamma * (1 - beta * math.cos(math.radians(th)))), 12)
    # the viewing angle is recovered from (Gamma, delta_D): its cosine must not exceed 1 by rounding
    while (1 - 1 / (Gamma * delta)) / beta > 1:
        delta *= 1 - 1e-13
    return dict(
        R_b=draw(logu(1e13, 1e18)),
        z=draw(pick(0.001, 0.03, 0.069, 0.158, 0.36, 0.859, 1.39, 2.5)),
        cosmo=draw(pick(None, None, None, 50.0)),
        delta_D=delta,
        Gamma=Gamma,
        B=draw(logu(1e-4, 1e2)),
        n_e=draw(n_e if n_e is not None else dist()),
        n_p=draw(n_p) if n_p is not None else None,
        xi=draw(logu(1e-8, 10.0)),
        gamma_e_size=draw(st.integers(*sizes)),
        gamma_p_size=draw(st.integers(*sizes)),
        uR=draw(pick("cm", "cm", "pc", "AU", "m")),
        uB=draw(pick("G", "G", "mG", "T", "nT")),
    )


def freqs(lo, hi, nmin=1, nmax=12):
    """increasing list of frequencies (log10 stored)"""
    return st.lists(st.integers(0, N), min_size=nmin, max_size=nmax, unique=True).map(
        lambda l: [_sig(10 ** (math.log10(lo) + (math.log10(hi) - math.log10(lo)) * i / N), 8) for i in sorted(l)]
    )
