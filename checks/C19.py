"""Differential fluxes and integral fluxes of any radiative process"""
import numpy as np
import astropy.units as u
from hypothesis import strategies as st

from agnpy.radiative_process import RadiativeProcess
from vlib import build, gen, procs, ref
from vlib.cmp import close, ensure, val
from vlib.runner import Sub

EV = 1.602176634e-12  # erg
FU = "erg cm-2 s-1"


class PowerLawProcess(RadiativeProcess):
    """a process whose SED is A (nu / 1e15 Hz)^s"""

    def __init__(self, A, s):
        self.A, self.s = A, s

    def sed_flux(self, nu):
        return self.A * (nu.to_value("Hz") / 1e15) ** self.s * u.Unit(FU)


def limits(nu, unit):
    """the same limit written as a frequency, an energy or a wavelength"""
    return (nu * u.Hz).to(unit, equivalencies=u.spectral())


def fn_pl(c, ctx):
    """power-law SEDs: diff_energy_flux = nuFnu/E^2, energy_flux_integral and flux_integral vs the analytic integrals, limits given as frequency, energy or wavelength, any number of points; non-trivial: limits apart"""
    p = PowerLawProcess(c["A"], c["s"])
    a = c["nu"]
    b = a * 10 ** c["dec"]
    n = c["n"]
    ctx.nontrivial()
    ctx.label(c["unit"])
    nu = np.array([b, a, np.sqrt(a * b), b])
    E = ref.H * nu / EV
    sed = c["A"] * (nu / 1e15) ** c["s"]
    close(val(p.diff_energy_flux(nu * u.Hz), "eV-1 cm-2 s-1"), sed / EV / E**2, 1e-6, "differential flux")
    lo, hi = limits(a, c["unit"]), limits(b, c["unit"])
    # the trapezoidal rule on n log-spaced points, in closed form
    x = np.exp(np.linspace(np.log(a), np.log(b), n))
    y = c["A"] * (x / 1e15) ** c["s"] / x
    close(val(p.energy_flux_integral(lo, hi, nu_points=n), FU), ref.trapz(y, x), 1e-6, "energy flux integral, trapezoidal rule with %d points" % n)
    y = c["A"] * (x / 1e15) ** c["s"] / EV / (ref.H * x / EV) ** 2
    close(val(p.flux_integral(lo, hi, nu_points=n), "cm-2 s-1"), ref.trapz(y, ref.H * x / EV), 1e-6, "flux integral, trapezoidal rule with %d points" % n)
    # analytic integrals
    m = 400 + int(60 * c["dec"]) * 4

    def exact(k):
        return (b**k - a**k) / k if abs(k) > 1e-9 else np.log(b / a)

    want = c["A"] * 1e15 ** -c["s"] * exact(c["s"])
    h2 = (np.log(b / a) / m) ** 2
    tol = 1e-6 + h2 * max(1, (abs(c["s"]) + 2) ** 2)
    close(val(p.energy_flux_integral(lo, hi, nu_points=m), FU), want, tol, "energy flux integral")
    want = c["A"] * 1e15 ** -c["s"] * exact(c["s"] - 1) / ref.H
    close(val(p.flux_integral(lo, hi, nu_points=m), "cm-2 s-1"), want, tol, "flux integral")
    close(val(p.energy_flux_integral(lo, hi), FU), val(p.energy_flux_integral(lo, hi, nu_points=50), FU), 1e-12, "default number of points")
    close(val(p.flux_integral(lo, hi), "cm-2 s-1"), val(p.flux_integral(lo, hi, nu_points=50), "cm-2 s-1"), 1e-12, "default number of points")


def strat_pl():
    return st.fixed_dictionaries(dict(A=gen.logu(1e-30, 1e-5), s=gen.lin(-3, 3), nu=gen.logu(1e8, 1e28), dec=gen.logu(1e-3, 8), n=st.integers(2, 300), unit=gen.pick("Hz", "GHz", "eV", "TeV", "erg", "cm", "Angstrom")))


def strat():
    return st.fixed_dictionaries(dict(
        b=gen.blob(n_e=gen.dist(decades=(1.5, 6), gmin=(1, 1e3)), n_p=gen.dist(mass="p", decades=(1, 6)), sizes=(40, 80)),
        t=procs.targets(), proc=gen.pick(*procs.NAMES), w=st.tuples(gen.lin(0, 1), gen.lin(0, 1)).map(list), unit=gen.pick("Hz", "eV", "cm"), n=st.integers(5, 40)))


def fn(c, ctx):
    """every process: integrals are those of its own SED on the log grid, differential flux = SED / E^2; non-trivial: non-zero flux"""
    blob = build.blob(c["b"])
    p = procs.process(c["proc"], blob, c["t"])
    lo, hi = procs.band(c["proc"], c["t"])
    a, b = sorted(10 ** (lo + (hi - lo) * np.array(c["w"])))
    b = max(b, a * 1.5)
    x = np.exp(np.linspace(np.log(a), np.log(b), c["n"]))
    sed = val(p.sed_flux(x * u.Hz), FU)
    ctx.nontrivial(sed.max() > 1e-100)
    ctx.label(c["proc"])
    E = ref.H * x / EV
    close(val(p.diff_energy_flux(x * u.Hz), "eV-1 cm-2 s-1"), sed / EV / E**2, 1e-6, "differential flux", atol=1e-280)
    la, lb = limits(a, c["unit"]), limits(b, c["unit"])
    tol = 1e-5 if not c["proc"].startswith(("ec", "ssc")) else 0.02  # steps of the kinematic limits on the grid
    close(val(p.energy_flux_integral(la, lb, c["n"]), FU), ref.trapz(sed / x, x), tol, "energy flux integral", atol=1e-250)
    close(val(p.flux_integral(la, lb, c["n"]), "cm-2 s-1"), ref.trapz(sed / EV / E**2, E), tol, "flux integral", atol=1e-250)


SUBS = [
    Sub("power_laws", fn_pl, strat_pl, quick=1200, thorough=40000, shards=4),
    Sub("processes", fn, strat, quick=600, thorough=12000, shards=8),
]
