"""Unit conversions"""
import numpy as np
import astropy.units as u
from astropy.constants import M_sun, m_e, m_n, m_p
from hypothesis import strategies as st

from agnpy.utils import conversion as C
from vlib import gen, ref
from vlib.cmp import close, ensure, raises, val
from vlib.runner import Sub

EV = 1.602176634e-12


def strat():
    return st.fixed_dictionaries(dict(nu=st.lists(gen.logu(1e5, 1e32), min_size=1, max_size=6), unit=gen.pick("Hz", "GHz", "s-1"), z=gen.lin(0, 8), delta=gen.logu(0.05, 100), mass=gen.pick("e", "p", None), B=gen.logu(1e-12, 1e6),
                                      Bunit=gen.pick("G", "mG", "uG", "T", "nT"), r=gen.logu(1e10, 1e25), runit=gen.pick("cm", "pc", "AU", "km"), M=gen.logu(1, 1e11), munit=gen.pick("M_sun", "kg", "g"), scalar=st.booleans()))


def fn(c, ctx):
    """frequencies to dimensionless energies of either mass in any frame and back, magnetic fields of any unit to Gaussian base units, lengths to gravitational radii, physical constants; other particle masses and wrong dimensions refused; non-trivial: all"""
    ctx.nontrivial()
    x = np.array(c["nu"]) if not c["scalar"] else c["nu"][0]
    nu = (x * u.Hz).to(c["unit"])
    mass = {"e": m_e, "p": m_p, None: None}[c["mass"]]
    mc2 = ref.MPC2 if c["mass"] == "p" else ref.MEC2
    eps = ref.H * x / mc2
    kw = {} if mass is None else dict(m=mass)
    close(val(C.nu_to_epsilon_prime(nu, c["z"], c["delta"], **kw), ""), eps * (1 + c["z"]) / c["delta"], 1e-9, "energy in the frame of the blob")
    close(val(C.nu_to_epsilon_prime(nu, c["z"], **kw), ""), eps * (1 + c["z"]), 1e-9, "energy in the frame of the galaxy")
    close(val(C.nu_to_epsilon_prime(nu, **kw), ""), eps, 1e-9, "energy in the frame of the observer")
    eq = C.epsilon_equivalency() if mass is None else C.epsilon_equivalency(mass)
    close(val(nu.to("", equivalencies=eq), ""), eps, 1e-9, "epsilon equivalency")
    close(val((eps * u.one).to("Hz", equivalencies=eq), "Hz"), x, 1e-9, "epsilon equivalency, backwards")
    B = (c["B"] * u.G).to(c["Bunit"])
    close(val(C.B_to_cgs(B), "cm(-1/2) g(1/2) s-1"), c["B"], 1e-9, "magnetic field")
    close(val((c["B"] * u.Unit("cm(-1/2) g(1/2) s-1")).to("G", equivalencies=C.Gauss_cgs_equivalency), "G"), c["B"], 1e-9, "magnetic field, backwards")
    # energy density of the field, independent of the unit
    close(val((C.B_to_cgs(B) ** 2 / (8 * np.pi)).to("erg cm-3"), "erg cm-3"), c["B"] ** 2 / (8 * np.pi), 1e-9, "energy density")
    r = (c["r"] * u.cm).to(c["runit"])
    M = (c["M"] * M_sun).to(c["munit"])
    close(val(C.to_R_g_units(r, M), ""), c["r"] * ref.C**2 / (ref.G * c["M"] * ref.MSUN), 1e-9, "gravitational radii")
    close(val(C.mec2, "erg"), ref.MEC2, 1e-9, "electron rest energy")
    close(val(C.mec2, "eV"), 510998.95, 1e-6, "electron rest energy")
    close(val(C.mpc2, "eV"), 938272088.0, 1e-6, "proton rest energy")
    close(val(C.lambda_c_e, "cm"), 2.42631023867e-10, 1e-6, "Compton wavelength of the electron")
    close(val(C.lambda_c_p, "cm"), 1.32140985539e-13, 1e-6, "Compton wavelength of the proton")
    raises(ValueError, lambda: C.epsilon_equivalency(m_n), "neutron mass")
    raises(u.UnitConversionError, lambda: C.B_to_cgs(r), "a length as magnetic field")
    raises(u.UnitConversionError, lambda: C.to_R_g_units(B, M), "a field as length")


SUBS = [Sub("conversions", fn, strat, quick=1500, thorough=40000, shards=4)]
