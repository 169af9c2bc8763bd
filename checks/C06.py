"""Totals, energy content and powers of the emission region"""
import numpy as np
from hypothesis import strategies as st

from vlib import build, gen, ref
from vlib.cmp import close, val
from vlib.runner import Sub


def strat():
    return st.fixed_dictionaries(
        dict(b=gen.blob(n_p=st.one_of(st.none(), gen.dist(mass="p"))), eps=st.lists(gen.logu(1e-20, 1e2), min_size=1, max_size=5), sed=st.lists(gen.logu(1e-18, 1e-8), min_size=5, max_size=5))
    )


def totals(d, size):
    g = ref.grid(d, size)
    n = ref.n_of(d, g)
    return ref.trapz(n, g), ref.trapz(g * n, g), ref.trapz(g**2 * n, g)


def fn(c, ctx):
    """densities, numbers, energies of both populations integrate the distribution over its own bounds with the right mass; U_B, equipartition, jet powers, synchrotron photon densities follow from them; non-trivial: positive densities"""
    b = c["b"]
    blob = build.blob(b)
    V = 4 / 3 * np.pi * b["R_b"] ** 3
    n0, n1, n2 = totals(b["n_e"], b["gamma_e_size"])
    ctx.nontrivial(n0 > 0)
    r = 1e-8
    close(val(blob.n_e_tot, "cm-3"), n0, r, "n_e_tot")
    close(val(blob.N_e_tot, ""), V * n0, r, "N_e_tot")
    ue = ref.MEC2 * n1
    close(val(blob.u_e, "erg cm-3"), ue, r, "u_e")
    close(val(blob.W_e, "erg"), V * ue, r, "W_e")
    g = ref.grid(b["n_e"], 9)
    close(val(blob.n_e(g), "cm-3"), ref.n_of(b["n_e"], g), 1e-9, "n_e")
    close(val(blob.N_e(g), ""), V * ref.n_of(b["n_e"], g), 1e-9, "N_e")
    UB = b["B"] ** 2 / (8 * np.pi)
    close(val(blob.U_B, "erg cm-3"), UB, 1e-12, "U_B")
    up = 0.0
    if b["n_p"] is not None:
        ctx.label("protons")
        p0, p1, _ = totals(b["n_p"], b["gamma_p_size"])
        up = ref.MPC2 * p1
        close(np.asarray(blob.gamma_p), ref.grid(b["n_p"], b["gamma_p_size"]), 1e-9, "gamma_p")
        close(val(blob.n_p_tot, "cm-3"), p0, r, "n_p_tot")
        close(val(blob.N_p_tot, ""), V * p0, r, "N_p_tot")
        close(val(blob.u_p, "erg cm-3"), up, r, "u_p")
        close(val(blob.W_p, "erg"), V * up, r, "W_p")
        gp = ref.grid(b["n_p"], 9)
        close(val(blob.n_p(gp), "cm-3"), ref.n_of(b["n_p"], gp), 1e-9, "n_p")
        close(val(blob.N_p(gp), ""), V * ref.n_of(b["n_p"], gp), 1e-9, "N_p")
    close(float(blob.k_eq), (ue + up) / UB, r, "k_eq")
    beta = np.sqrt(1 - 1 / b["Gamma"] ** 2)
    pre = 2 * np.pi * b["R_b"] ** 2 * beta * b["Gamma"] ** 2 * ref.C
    close(val(blob.P_jet_ke, "erg s-1"), pre * (ue + up), r, "P_jet_ke")
    close(val(blob.P_jet_B, "erg s-1"), pre * UB, r, "P_jet_B")
    close(val(blob.u_ph_synch, "erg cm-3"), ref.ST * UB * b["R_b"] * n2, r, "u_ph_synch")
    eps = np.array(c["eps"])
    sed = np.array(c["sed"])[: eps.size]
    import astropy.units as u

    want = 0.75 * 3 * val(blob.d_L, "cm") ** 2 * sed / (ref.C * b["R_b"] ** 2 * b["delta_D"] ** 4 * eps)
    close(val(blob.u_ph_synch_diff(eps, sed * u.Unit("erg cm-2 s-1")), "erg cm-3"), want, 1e-9, "u_ph_synch_diff")


SUBS = [Sub("contents", fn, strat, quick=500, thorough=20000, shards=4)]
