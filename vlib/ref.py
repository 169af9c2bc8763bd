"""Independent plain-numpy model of the published formulae, in cgs floats.

Nothing here imports agnpy: only CODATA constants from astropy."""
import numpy as np
from astropy import constants as K

ME, MP = K.m_e.cgs.value, K.m_p.cgs.value
C = K.c.cgs.value
H = K.h.cgs.value
KB = K.k_B.cgs.value
E = K.e.gauss.value
ST = K.sigma_T.cgs.value
SB = K.sigma_sb.cgs.value
G = K.G.cgs.value
MSUN = K.M_sun.cgs.value
MEC2, MPC2 = ME * C**2, MP * C**2
LAMBDA_E = H / (ME * C)
B_CR = 4.414e13
MASS = {"e": ME, "p": MP}


def trapz(y, x, axis=0):
    y = np.moveaxis(np.asarray(y, dtype=float), axis, 0)
    x = np.asarray(x, dtype=float)
    if x.ndim == 1:
        dx = np.diff(x).reshape((-1,) + (1,) * (y.ndim - 1))
    else:
        dx = np.diff(np.moveaxis(x, axis, 0), axis=0)
    return np.sum(0.5 * (y[1:] + y[:-1]) * dx, axis=0)


def trapz_loglog(y, x, axis=0):
    """exact integral of the power law through each pair of neighbouring points"""
    y = np.moveaxis(np.asarray(y, dtype=float), axis, 0)
    x = np.asarray(x, dtype=float)
    if x.ndim == 1:
        x = x.reshape((-1,) + (1,) * (y.ndim - 1))
    else:
        x = np.moveaxis(x, axis, 0)
    with np.errstate(all="ignore"):
        t = np.log(x[1:] / x[:-1])
        s = np.log(y[1:] / y[:-1]) + t  # (m+1) * t
        # y_low x_low t * (exp(s)-1)/s
        f = np.where(np.abs(s) > 1e-12, np.expm1(s) / np.where(s == 0, 1, s), 1.0)
        v = y[:-1] * x[:-1] * t * f
        v = np.where((y[:-1] == 0) | (y[1:] == 0) | (x[1:] == x[:-1]), 0.0, v)
    return np.sum(v, axis=0)


INTEG = {"trapz": trapz, "loglog": trapz_loglog, None: trapz}


def n_of(d, g):
    """density of the distribution described by d at Lorentz factors g (cm-3)"""
    g = np.asarray(g, dtype=float)
    k, s = d["k"], d["shape"]
    with np.errstate(all="ignore"):
        if s == "PowerLaw":
            v = k * g ** -d["p"]
        elif s == "BrokenPowerLaw":
            v = k * np.where(g <= d["gamma_b"], (g / d["gamma_b"]) ** -d["p1"], (g / d["gamma_b"]) ** -d["p2"])
        elif s == "LogParabola":
            x = g / d["gamma_0"]
            v = k * x ** -(d["p"] + d["q"] * np.log10(x))
        elif s == "ExpCutoffPowerLaw":
            v = k * g ** -d["p"] * np.exp(-g / d["gamma_c"])
        elif s == "ExpCutoffBrokenPowerLaw":
            v = k * np.where(g <= d["gamma_b"], (g / d["gamma_b"]) ** -d["p1"], (g / d["gamma_b"]) ** -d["p2"]) * np.exp(-g / d["gamma_c"])
        else:
            raise KeyError(s)
    # the package tolerates 1e-10 relative rounding on the boundaries
    inside = (g >= d["gamma_min"] * (1 - 1e-10)) & (g <= d["gamma_max"] * (1 + 1e-10))
    return np.where(inside, v, 0.0)


def dlnn_dg(d, g):
    """d ln n / d gamma, analytically"""
    s = d["shape"]
    if s == "PowerLaw":
        return -d["p"] / g
    if s == "BrokenPowerLaw":
        return -np.where(g <= d["gamma_b"], d["p1"], d["p2"]) / g
    if s == "LogParabola":
        return -(d["p"] + 2 * d["q"] * np.log10(g / d["gamma_0"])) / g
    if s == "ExpCutoffPowerLaw":
        return -d["p"] / g - 1 / d["gamma_c"]
    if s == "ExpCutoffBrokenPowerLaw":
        return -np.where(g <= d["gamma_b"], d["p1"], d["p2"]) / g - 1 / d["gamma_c"]
    raise KeyError(s)


def ssa_integrand(d, g):
    return n_of(d, g) * (dlnn_dg(d, g) - 2 / g)


def grid(d, size):
    """logarithmic Lorentz factor grid between the bounds of the distribution"""
    g = np.exp(np.linspace(np.log(d["gamma_min"]), np.log(d["gamma_max"]), size))
    g[0], g[-1] = d["gamma_min"], d["gamma_max"]
    return g


# --------------------------------------------------------------------- synchrotron
def R_approx(x):
    """Aharonian, Kelner & Prosekin 2010, Eq. D7"""
    a = 1.808 * x ** (1 / 3) / np.sqrt(1 + 3.4 * x ** (2 / 3))
    b = (1 + 2.21 * x ** (2 / 3) + 0.347 * x ** (4 / 3)) / (1 + 1.353 * x ** (2 / 3) + 0.217 * x ** (4 / 3))
    return a * b * np.exp(-x)


def eps_of_nu(nu, mass=ME):
    return H * nu / (mass * C**2)


def synch_power(B, eps, g, mass=ME):
    """sqrt(3) e^3 B / h * R(x) [erg s-1 per unit epsilon]; x = 4 pi eps m^2 c^3 / (3 e B h gamma^2)"""
    x = 4 * np.pi * eps * mass**2 * C**3 / (3 * E * B * H * g**2)
    return np.sqrt(3) * E**3 * B / H * R_approx(x)


def synch_sed(nu, z, dL, delta, B, R_b, n, g, mass=ME, integ=trapz):
    """Finke et al. 2008 Eq. 21; n: densities on the grid g"""
    eps = (1 + z) * eps_of_nu(np.asarray(nu), mass) / delta
    V = 4 / 3 * np.pi * R_b**3
    y = V * n[:, None] * synch_power(B, eps[None, :], g[:, None], mass)
    J = integ(y, g)
    return delta**4 * eps * J / (4 * np.pi * dL**2)


def ssa_tau(nu, z, delta, B, R_b, S, g, integ=trapz):
    """optical depth 2 R_b kappa, Dermer & Menon (7.122 and before); S = gamma^2 d/dgamma (n/gamma^2) on the grid"""
    eps = (1 + z) * eps_of_nu(np.asarray(nu)) / delta
    y = S[:, None] * synch_power(B, eps[None, :], g[:, None])
    kappa = -1 / (8 * np.pi * ME * eps**2) * (LAMBDA_E / C) ** 3 * integ(y, g)
    return 2 * kappa * R_b


def sphere_attenuation(tau):
    """3 u(tau)/tau, Dermer & Menon Eq. 7.122, series for small tau"""
    tau = np.asarray(tau, dtype=float)
    with np.errstate(all="ignore"):
        uu = 0.5 + np.exp(-tau) / tau - (1 - np.exp(-tau)) / tau**2
        full = 3 * uu / tau
    ser = 1 - 3 * tau / 8 + tau**2 / 10 - tau**3 / 48
    return np.where(np.abs(tau) < 1e-2, ser, full)


# --------------------------------------------------------------------- inverse Compton
NU_SYNCH = 10 ** np.linspace(5, 30, 200)  # frequencies of the synchrotron target photons (documented grid)
GAMMA_DEFAULT = 10 ** np.linspace(1, 9, 200)


def F_c(q, ge):
    with np.errstate(all="ignore"):
        return 2 * q * np.log(np.where(q > 0, q, 1)) + (1 + 2 * q) * (1 - q) + 0.5 * (ge * q) ** 2 / (1 + ge * q) * (1 - q)


def jones_kernel(g, eps, eps_s):
    """isotropic photons on isotropic electrons (Jones 1968)"""
    ge = 4 * g * eps
    with np.errstate(all="ignore"):
        w = eps_s / g
        q = w / (ge * (1 - w))
        ok = (q >= 1 / (4 * g**2)) & (q <= 1)
        return np.where(ok, F_c(np.where(ok, q, 0.5), ge), 0.0)


def ssc_sed(nu, z, dL, delta, B, R_b, n, g, S=None, integ=trapz):
    """Finke et al. 2008 Eq. 9; n: densities on g; S: SSA integrand on g (None: no self-absorption)"""
    nu = np.asarray(nu)
    eps = (1 + z) * eps_of_nu(NU_SYNCH) / delta
    eps_s = (1 + z) * eps_of_nu(nu) / delta
    sed = synch_sed(NU_SYNCH, z, dL, delta, B, R_b, n, g, integ=integ)
    if S is not None:
        t = ssa_tau(NU_SYNCH, z, delta, B, R_b, S, g, integ)
        sed = sed * np.where(t < 1e-3, 1.0, sphere_attenuation(np.where(t < 1e-3, 1.0, t)))
    u = 0.75 * 3 * dL**2 * sed / (C * R_b**2 * delta**4 * eps)
    V = 4 / 3 * np.pi * R_b**3
    k = jones_kernel(g[:, None, None], eps[None, :, None], eps_s[None, None, :])
    y = (u / eps**2)[None, :, None] * (V * n / g**2)[:, None, None] * k
    J = integ(integ(y, g), eps)
    em = 0.75 * C * ST * eps_s**2 * J
    return delta**4 * em / (4 * np.pi * dL**2)


def headon_kernel(g, eps_s, eps, cospsi):
    """Dermer et al. 2009 Eq. 26-29, head-on approximation"""
    with np.errstate(all="ignore"):
        eb = g * eps * (1 - cospsi)
        y = 1 - eps_s / g
        v = y + 1 / y - 2 * eps_s / (g * eb * y) + (eps_s / (g * eb * y)) ** 2
        gmin = eps_s / 2 * (1 + np.sqrt(1 + 2 / (eps * eps_s * (1 - cospsi))))
    return np.where(g >= gmin, v, 0.0)


def tw(x):
    """trapezoidal weights of the grid x"""
    x = np.asarray(x, dtype=float)
    w = np.zeros_like(x)
    d = np.diff(x)
    w[:-1] += d / 2
    w[1:] += d / 2
    return w


def ec_sed(nu, z, dL, delta, mu_s, R_b, nfun, g, mu, phi, eps0, du, integ=trapz, shift=0.0):
    """External Compton of a photon field given as energy density per direction.

    mu, phi, eps0, du are broadcastable arrays over directions: du is the energy density [erg cm-3] carried by each
    direction (already weighted), eps0 its photon energy.  nfun: density of the particles in the comoving frame."""
    nu = np.asarray(nu, dtype=float)
    mu, phi, eps0, du = [np.ravel(a) for a in np.broadcast_arrays(mu, phi, eps0, du)]
    cosp = mu * mu_s + np.sqrt(np.clip(1 - mu**2, 0, None)) * np.sqrt(max(0.0, 1 - mu_s**2)) * np.cos(phi)
    if shift:
        cosp = np.clip(cosp + shift, -1, 1)
    V = 4 / 3 * np.pi * R_b**3
    N = V * nfun(g / delta)
    out = []
    for v in nu:
        es = H * v * (1 + z) / MEC2
        k = headon_kernel(g[:, None], es, eps0[None, :], cosp[None, :])
        Ig = integ(N[:, None] / g[:, None] ** 2 * k, g)
        J = np.sum(Ig * du / eps0**2)
        out.append(3 * C * ST * es**2 * delta**3 / (32 * np.pi * dL**2) * J)
    return np.array(out)


def dirs_iso(u0, eps0, nmu, nphi):
    mu, phi = np.linspace(-1, 1, nmu), np.linspace(0, 2 * np.pi, nphi)
    M, P = np.meshgrid(mu, phi, indexing="ij")
    du = u0 / (4 * np.pi) * tw(mu)[:, None] * tw(phi)[None, :]
    return M, P, np.full_like(M, eps0), du


def dirs_ring(L, eps0, R, r, nphi):
    phi = np.linspace(0, 2 * np.pi, nphi)
    x2 = R**2 + r**2
    du = L / (4 * np.pi * C * x2) * tw(phi) / (2 * np.pi)
    return np.full_like(phi, r / np.sqrt(x2)), phi, np.full_like(phi, eps0), du


def dirs_shell(L, eps0, R, r, nmu, nphi):
    """spherical shell, uniform emissivity per unit solid angle; direction of the photons at height r"""
    mu, phi = np.linspace(-1, 1, nmu), np.linspace(0, 2 * np.pi, nphi)
    # photon travels from (R sin, R cos) to (0, r): cosine with the axis
    x2 = (r - R * mu) ** 2 + R**2 * (1 - mu**2)
    mustar = (r - R * mu) / np.sqrt(x2)
    M, P = np.meshgrid(mustar, phi, indexing="ij")
    du = (L / (4 * np.pi * C * x2) / 2 * tw(mu))[:, None] * (tw(phi) / (2 * np.pi))[None, :]
    return M, P, np.full_like(M, eps0), du


def disk_pars(M, L, eta):
    """gravitational radius, accretion rate, photon energy coefficient of a Shakura-Sunyaev disk (M in g)"""
    Rg = G * M / C**2
    mdot = L / (eta * C**2)
    M8 = M / (1e8 * MSUN)
    xi = (L / (1.26e46 * M8) / (M8 * eta)) ** 0.25
    return Rg, mdot, 2.7e-4 * xi


def disk_mu(Rin, Rout, r, n):
    return np.linspace(1 / np.sqrt(1 + (Rout / r) ** 2), 1 / np.sqrt(1 + (Rin / r) ** 2), n)


def dirs_disk(M, L, eta, Rin, Rout, r, nmu, nphi, rounding=False):
    """Dermer & Schlickeiser disk: u(mu) per unit solid angle from dissipation per unit area 3GM mdot/(8 pi R^3) phi(R)"""
    Rg, mdot, ec = disk_pars(M, L, eta)
    mu, phi = disk_mu(Rin, Rout, r, nmu), np.linspace(0, 2 * np.pi, nphi)
    R = r * np.sqrt(mu**-2 - 1)
    ff = 1 - np.sqrt(Rin / R)
    if rounding:  # the size of the rounding error of ff, which vanishes at the inner edge
        ff = 4e-16 * (2 + (r / R) ** 2)
    eps = ec * (R / Rg) ** -0.75
    # dL = 3 G M mdot/(4 pi R^3)... Eq. 69 of Dermer et al. 2009: u = 3 G M mdot/(8 pi^2 c r^3) ... per sterad, mu^-1 (mu^-2-1)^-3/2
    dens = 3 * G * M * mdot * ff / (8 * np.pi * C * r**3 * mu * (mu**-2 - 1) ** 1.5)
    M_, P = np.meshgrid(mu, phi, indexing="ij")
    du = (dens * tw(mu))[:, None] * (tw(phi) / (2 * np.pi))[None, :]
    return M_, P, np.broadcast_to(eps[:, None], M_.shape), du


def kn_loss(gamma, z, dL, delta, B, R_b, nfun):
    """SSC energy loss rate with the Klein-Nishina correction of Moderski et al. 2005"""
    gamma = np.asarray(gamma, dtype=float)
    eps = (1 + z) * eps_of_nu(NU_SYNCH) / delta
    g = GAMMA_DEFAULT
    sed = synch_sed(NU_SYNCH, z, dL, delta, B, R_b, nfun(g), g)
    u = 0.75 * 3 * dL**2 * sed / (C * R_b**2 * delta**4 * eps)
    b = 4 * gamma[:, None] * eps[None, :]
    f = np.where(b < 1e4, (1 + b) ** -1.5, 9 / (2 * b**2) * (np.log(b) - 11 / 6))
    return 4 / 3 * ST * C * trapz(f * u[None, :], eps, axis=1) * gamma**2


# --------------------------------------------------------------------- pair production
def sigma_gg(s):
    """pair-production cross section [cm2] at s = E1 E2 (1 - cos psi) / 2 (Breit & Wheeler), stable for large s"""
    s = np.asarray(s, dtype=float)
    ok = s > 1
    x = np.where(ok, s, 2.0)
    b = np.sqrt(1 - 1 / x)
    lg = np.log(x * (1 + b) ** 2)  # (1+b)/(1-b) = (1+b)^2 s
    v = 3 / 16 * ST / x * ((3 - b**4) * lg - 2 * b * (2 - b**2))
    return np.where(ok, v, 0.0)


def tau_path(eps1, path, dirs):
    """int dl  sum_dirs n(eps) (1 - cos psi) sigma;  dirs(l) -> (1 - cos psi, eps, photons cm-3), 1-D arrays of the photons met at l.

    Returns the optical depth and its possible change by rounding of the angles."""
    eps1 = np.asarray(eps1, dtype=float)
    vals, lo, hi = [], [], []
    for l in path:
        omc, eps, n = [np.ravel(a) for a in np.broadcast_arrays(*dirs(l))]
        v = []
        for f, a in ((1, 0), (1 - 1e-9, -6e-16), (1 + 1e-9, 6e-16)):
            o = np.clip(omc * f + a, 0, 2)
            s = eps1[:, None] * (eps * o)[None, :] / 2
            v.append(np.sum(sigma_gg(s) * (o * n)[None, :], axis=1))
        vals.append(v[0])
        lo.append(np.min(v, axis=0))
        hi.append(np.max(v, axis=0))
    t = [trapz(np.array(a), np.asarray(path)) for a in (vals, lo, hi)]
    return t[0], t[2] - t[1]
