"""Cases of time evolution and an independent model of it.

A rate is described by a power law: energy change  f(g) = m c^2 g * (x/dt) * (g/gp)^q, injections likewise.
"""
import numpy as np
import astropy.units as u
from hypothesis import strategies as st

from . import gen, ref

MEC2 = ref.ME * ref.C**2
EUNITS = {"erg s-1": 1.0, "GeV s-1": 1.602176634e-3, "W": 1e7, "erg h-1": 1 / 3600.0}
RUNITS = {"s-1": 1.0, "h-1": 1 / 3600.0}
AUNITS = {"cm-3 s-1": 1.0, "m-3 s-1": 1e-6, "cm-3 h-1": 1 / 3600.0}


def energy_term(big=False):
    """big: also changes of the energies by a large factor in one step"""
    loss = st.fixed_dictionaries(dict(x=gen.logu(1e-5, 0.15).map(lambda v: -v), q=gen.pick(0.0, 1.0, 0.5, 2.0), at=st.just("max"), unit=gen.pick(*EUNITS)))
    acc = st.fixed_dictionaries(dict(x=gen.logu(1e-5, 0.15), q=gen.pick(0.0, -1.0, -0.5), at=st.just("min"), unit=gen.pick(*EUNITS)))
    if big:
        much = st.fixed_dictionaries(dict(x=st.one_of(gen.lin(-0.95, -0.15), gen.logu(0.15, 30)), q=st.just(0.0), at=st.just("min"), unit=gen.pick(*EUNITS)))
        return st.one_of(loss, acc, loss, acc, much)
    return st.one_of(loss, acc)


def rel_term():
    return st.fixed_dictionaries(dict(x=gen.lin(-0.3, 0.4), q=gen.pick(0.0, 0.3, -0.3), at=gen.pick("min", "max"), unit=gen.pick(*RUNITS)))


def abs_term():
    return st.fixed_dictionaries(dict(x=gen.logu(1e-3, 10), q=gen.pick(0.0, -1.0, -2.2), at=gen.pick("min", "max"), unit=gen.pick(*AUNITS)))


def power(t, dt, g0):
    """relative rate (s-1) at g"""
    gp = g0[0] if t["at"] == "min" else g0[-1]
    return lambda g: t["x"] / dt * (g / gp) ** t["q"]


def efun(t, dt, g0):
    p, conv = power(t, dt, g0), EUNITS[t["unit"]]
    return lambda a: MEC2 * a.gamma * p(a.gamma) / conv * u.Unit(t["unit"])


def rfun(t, dt, g0):
    p, conv = power(t, dt, g0), RUNITS[t["unit"]]
    return lambda a: p(a.gamma) / conv * u.Unit(t["unit"])


def afun(t, dt, g0, n0):
    p, conv = power(t, dt, g0), AUNITS[t["unit"]]
    np_ = n0[0] if t["at"] == "min" else n0[-1]
    return lambda a: p(a.gamma) * np_ / conv * u.Unit(t["unit"])


def amplification(before, after):
    """how much the relative errors of a density grow when something is subtracted from it"""
    ok = after > 0
    return max(1.0, np.max(before[ok] / after[ok])) if ok.any() else 1.0


class Invalid(Exception):
    pass


class Model:
    """nodes moved by the energy change, densities by conservation of particles in the comoving interval plus injection;
    several groups of particles with their own injections but the same energy changes"""

    def __init__(self, g, n, frac=None):
        self.g, self.n = np.array(g, float), np.atleast_2d(np.array(n, float) if frac is None else np.array(frac) * n)
        self.tol = 1e-9
        self.g0, self.n0 = self.g.copy(), self.n.sum(axis=0)
        self.history = []

    def rate(self, terms, dt, g):
        """dg/dt and its derivative"""
        f, d = np.zeros_like(g), np.zeros_like(g)
        for t in terms:
            r = power(t, dt, self.g0)(g)
            f, d = f + g * r, d + (1 + t["q"]) * r
        return f, d

    def injection(self, rel, ab, dt):
        out = np.zeros_like(self.n)
        for i in range(len(self.n)):
            for t in rel[i]:
                out[i] += self.n[i] * power(t, dt, self.g0)(self.g)
            for t in ab[i]:
                out[i] += power(t, dt, self.g0)(self.g) * (self.n0[0] if t["at"] == "min" else self.n0[-1])
        return out

    def step(self, terms, rel, ab, dt, h, heun=False):
        """dt: unit of the rates; h: duration of the step"""
        f, d = self.rate(terms, dt, self.g)
        inj = self.injection(rel, ab, dt)
        if heun:
            g1 = self.g + h * f
            if np.any(g1 <= 0) or np.any(1 + h * d <= 0) or np.any(self.n / (1 + h * d) + h * inj < 0):
                raise Invalid
            f1, d1 = self.rate(terms, dt, g1)
            f, d = (f + f1) / 2, (d + d1 * (1 + h * d)) / 2
        g1, w = self.g + h * f, 1 + h * d
        if np.any(g1 <= 0) or np.any(w <= 0):
            raise Invalid
        n1 = self.n / w + h * inj
        if np.any(n1 < 0):
            raise Invalid
        # edges of the narrow bins instead of the derivative: second-order term of the width
        # (amplified where a negative injection cancels most of the density)
        self.tol = (self.tol + 1.2e-3 * np.max(np.abs(h * f / self.g)) + 1e-9) * amplification(self.n / w, n1)
        o = np.argsort(g1, kind="stable")
        self.g, self.n = g1[o], n1[:, o]
        self.history.append((self.g, self.n))

    @property
    def total(self):
        return self.n.sum(axis=0)

    def separated(self, gap=1e-9):
        return all(np.all(np.diff(g) > gap * g[1:]) for g, _ in self.history)
