"""Spectral constraints balance the documented time scales"""
import numpy as np
import astropy.units as u
from hypothesis import strategies as st

from agnpy.constraints import SpectralConstraints
from agnpy.synchrotron import Synchrotron
from agnpy.targets import SSDisk, RingDustTorus
from vlib import build, gen, ref
from vlib.cmp import close, val
from vlib.runner import Sub


def strat():
    return st.fixed_dictionaries(
        dict(b=gen.blob(), L=gen.logu(1e42, 1e48), xi_dt=gen.lin(0.01, 1.0), T=gen.lin(100, 2000), r=gen.logu(1e14, 1e21), r0=st.booleans())
    )


def fn(c, ctx):
    """each limit equates acceleration, cooling, escape and Larmor time scales computed from the energy densities; non-trivial: all"""
    b = c["b"]
    blob = build.blob(b)
    s = SpectralConstraints(blob)
    ctx.nontrivial()
    R, B, xi = b["R_b"], b["B"], b["xi"]
    r = 1e-8
    gl = float(s.gamma_max_larmor)
    close(gl * ref.MEC2 / (ref.E * B), R, r, "Larmor radius at gamma_max_larmor = R_b")
    gb = float(s.gamma_max_ballistic)
    close((gb * ref.MEC2 / (ref.E * B)) / (xi * ref.C), R / ref.C, r, "acceleration time at gamma_max_ballistic = R_b/c")

    def tacc(g):  # gamma / (dgamma/dt)
        return (g * ref.MEC2 / (ref.E * B)) / (xi * ref.C)

    def tcool(g, U):
        return 3 * ref.MEC2 / (4 * ref.ST * ref.C * U * g)

    UB = B**2 / (8 * np.pi)
    g = float(s.gamma_max_synch)
    close(tacc(g), tcool(g, UB), r, "acceleration = synchrotron cooling at gamma_max_synch")
    # and through the package's own loss rate
    loss = val(Synchrotron(blob).electron_energy_loss_rate(np.array([g])), "erg s-1")[0]
    close(g * ref.MEC2 / loss, tacc(g), r, "acceleration = loss rate at gamma_max_synch")
    Us = val(blob.u_ph_synch, "erg cm-3")
    if Us > 0 and np.isfinite(Us):
        g = float(s.gamma_max_SSC)
        close(tacc(g), tcool(g, Us), r, "acceleration = SSC cooling at gamma_max_SSC")
        close(tcool(float(s.gamma_break_SSC), Us), R / ref.C, r, "SSC cooling = R_b/c at gamma_break_SSC")
    close(tcool(float(s.gamma_break_synch), UB), R / ref.C, r, "synchrotron cooling = R_b/c at gamma_break_synch")
    disk = SSDisk(M_BH=1e8 * u.M_sun, L_disk=c["L"] * u.Unit("erg s-1"), eta=1 / 12, R_in=6, R_out=200, R_g_units=True)
    dt = RingDustTorus(L_disk=c["L"] * u.Unit("erg s-1"), xi_dt=c["xi_dt"], T_dt=c["T"] * u.K)
    kw = {} if c["r0"] else dict(r=c["r"] * u.cm)
    rr = 0.0 if c["r0"] else c["r"]
    # comoving dust photon energy density seen from height r: u = L/(4 pi c d^2) Gamma^2 (1 - mu beta)^2
    Rdt = val(dt.R_dt, "cm")
    d = np.hypot(rr, Rdt)
    beta = np.sqrt(1 - 1 / b["Gamma"] ** 2)
    U = c["xi_dt"] * c["L"] / (4 * np.pi * ref.C * d**2) * (b["Gamma"] * (1 - beta * rr / d)) ** 2
    g = float(s.gamma_max_EC_DT(dt, **kw))
    close(tacc(g), tcool(g, U), 1e-6, "acceleration = EC cooling at gamma_max_EC_DT")
    close(tcool(float(s.gamma_break_EC_DT(dt, **kw)), U), R / ref.C, 1e-6, "EC cooling = R_b/c at gamma_break_EC_DT")


SUBS = [Sub("time_scales", fn, strat, quick=400, thorough=20000, shards=4)]
