"""Geometry helpers agree with vectors in three dimensions"""
import numpy as np
import astropy.units as u
from hypothesis import strategies as st

from agnpy.utils import geometry as G
from vlib import gen, ref
from vlib.cmp import close, ensure, val
from vlib.runner import Sub


def strat():
    return st.fixed_dictionaries(dict(R=gen.logu(1e15, 1e20), rr=gen.logu(1e-3, 1e3), ur=st.lists(gen.logu(1e-4, 1e4), min_size=1, max_size=4), mu_s=gen.lin(-1, 1), mu=st.lists(gen.lin(-1, 1), min_size=1, max_size=4),
                                      phi=st.lists(gen.lin(0, 2 * np.pi), min_size=1, max_size=4), unit=gen.pick("cm", "cm", "pc", None), unit_R=gen.pick("cm", "pc", "AU")))


def q(x, c):
    x = np.asarray(x, float)
    return x * u.cm if c["unit"] == "cm" else (x * u.cm).to("pc") if c["unit"] else x


def qR(x, c):
    # the size of the ring or shell in its own unit
    return q(x, c).to(c["unit_R"]) if c["unit"] else q(x, c)


def length(x, c):
    return val(x, "cm") if c["unit"] else np.asarray(x, float)


def fn(c, ctx):
    """distances and directions from a ring or a shell of reprocessing material to a point on or off the axis, and the angle between two directions, vs explicit vectors; floats and quantities; outer-product arrays; non-trivial: point off the axis"""
    R, r = c["R"], c["R"] * c["rr"]
    U, M, F = np.meshgrid(np.array(c["ur"]) * r, c["mu"], c["phi"], indexing="ij")
    ms = c["mu_s"]
    ss = np.sqrt(1 - ms**2)
    ctx.nontrivial(abs(ms) < 1)
    # angle between two directions
    a = np.array([np.sqrt(1 - M**2) * np.cos(F), np.sqrt(1 - M**2) * np.sin(F), M])
    d = np.array([ss, 0, ms])
    close(G.cos_psi(ms, M, F), np.tensordot(d, a, 1), 1e-9, "cos_psi", atol=1e-12)
    pos = np.array([U * ss, 0 * U, r + U * ms])

    def compare(P, x, phi_mu, what):
        v = pos - P
        n = np.sqrt(np.sum(v**2, axis=0))
        scale = R + r + U
        loss = 1e-13 * (scale / n) ** 2  # cosine rule
        m = loss < 1e-3
        close(length(x, c)[m], n[m], 1e-3, "distance to the " + what)
        ensure(np.all(np.abs(length(x, c)[m] / n[m] - 1) < 1e-9 + loss[m]), "distance to the " + what)
        if phi_mu is None:
            return
        phi, mu = phi_mu
        phi = val(phi, "rad") if c["unit"] else np.asarray(phi, float)
        phi, mu = np.broadcast_to(phi, n.shape), np.broadcast_to(val(mu, ""), n.shape)
        ensure(np.all(np.abs(mu - v[2] / n)[m] < 1e-9 + loss[m]), "cosine of the photons from the %s: %s instead of %s" % (what, mu, v[2] / n))
        h = np.hypot(v[0], v[1]) / scale
        w = m & (h > 1e-6)
        ensure(np.all(np.abs(np.cos(phi) - v[0] / (h * scale))[w] < 1e-7) and np.all(np.abs(np.sin(phi) - v[1] / (h * scale))[w] < 1e-7), "azimuth of the photons from the " + what)

    ring = R * np.array([np.cos(F), np.sin(F), 0 * F])
    x = G.x_re_ring_mu_s(qR(R, c), q(r, c), F, q(U, c), ms)
    compare(ring, x, G.phi_mu_re_ring(qR(R, c), q(r, c), F, q(U, c), ms), "ring")
    sm = np.sqrt(1 - M**2)
    shell = R * np.array([sm * np.cos(F), sm * np.sin(F), M])
    x = G.x_re_shell_mu_s(qR(R, c), q(r, c), F, M, q(U, c), ms)
    compare(shell, x, G.phi_mu_re_shell(qR(R, c), q(r, c), F, M, q(U, c), ms), "shell")
    # on the axis
    r1 = np.array(c["ur"])[:, None] * R
    mu1 = np.array(c["mu"])[None, :]
    keep = np.all((np.abs(r1 / R - mu1) > 1e-5) & ((1 - mu1**2 > 1e-12) | (np.abs(r1 / R - 1) > 1e-3)))
    if keep:
        v = np.sqrt((R * np.sqrt(1 - mu1**2)) ** 2 + (r1 - R * mu1) ** 2)
        loss = 1e-14 * ((R + r1) / v) ** 2
        x1 = length(G.x_re_shell(mu1, qR(R, c), q(r1, c)), c)
        ensure(np.all(np.abs(x1 / v - 1) < 1e-9 + loss), "distance to the shell, on the axis")
        k = (r1 - R * mu1) / v
        ms1 = val(G.mu_star_shell(mu1, qR(R, c), q(r1, c)), "")
        ensure(ms1.shape == k.shape and np.all(np.abs(ms1**2 - k**2) < 1e-9 + 4 * loss) and np.all(np.sign(ms1) == np.sign(k)), "cosine of the photons from the shell: %s instead of %s" % (ms1, k))
    close(length(G.x_re_ring(qR(R, c), q(r1, c)), c), np.hypot(R, r1), 1e-12, "distance to the ring, on the axis")


SUBS = [Sub("vectors", fn, strat, quick=3000, thorough=80000, shards=6)]
