"""fit wrappers: generated parameters and an independent evaluation of what the wrapped models should return"""
import numpy as np
import astropy.units as u
from astropy.coordinates import Distance
from hypothesis import strategies as st
from scipy.interpolate import PchipInterpolator

from agnpy.spectra import InterpolatedDistribution
from agnpy.targets import RingDustTorus, SSDisk
from . import build, gen, ref
from .gen import SHAPES

# order of the parameters of each shape (the order of its evaluate method)
SHAPE_PARS = {
    "PowerLaw": ["log10_k", "p", "log10_gamma_min", "log10_gamma_max"],
    "BrokenPowerLaw": ["log10_k", "p1", "p2", "log10_gamma_b", "log10_gamma_min", "log10_gamma_max"],
    "LogParabola": ["log10_k", "p", "q", "log10_gamma_0", "log10_gamma_min", "log10_gamma_max"],
    "ExpCutoffPowerLaw": ["log10_k", "p", "log10_gamma_c", "log10_gamma_min", "log10_gamma_max"],
    "ExpCutoffBrokenPowerLaw": ["log10_k", "p1", "p2", "log10_gamma_c", "log10_gamma_b", "log10_gamma_min", "log10_gamma_max"],
    "Interpolated": ["log10_norm", "log10_gamma_min", "log10_gamma_max"],
}
REGION = ["z", "delta_D", "log10_B", "t_var"]
REGION_EC = REGION + ["mu_s", "log10_r"]
DISK = ["log10_L_disk", "M_BH", "m_dot", "R_in", "R_out"]
BLR = ["xi_line", "lambda_line", "R_line"]
DT = ["xi_dt", "T_dt", "R_dt"]
UNITS = dict(t_var="s", M_BH="g", m_dot="g s-1", R_in="cm", R_out="cm", lambda_line="Angstrom", R_line="cm", T_dt="K", R_dt="cm")
LIMITS = dict(log10_k=(-15, 15), log10_norm=(-3, 3), log10_gamma_min=(0, 4), log10_gamma_max=(4, 8), log10_gamma_b=(2, 6), log10_gamma_0=(2, 6), log10_gamma_c=(2, 6), p=(1, 5), p1=(1, 5), p2=(1, 5), q=(1e-3, 1),
              z=(1e-3, 10), delta_D=(1, 100), log10_B=(-4, 2), t_var=(10, np.pi * 1e7), mu_s=(0, 1), log10_r=(16, 22), log10_L_disk=(42, 48), M_BH=(1e32, 1e45), m_dot=(1e24, 1e30), R_in=(1e12, 1e16), R_out=(1e12, 1e19),
              xi_line=(0, 1), lambda_line=(900, 7000), R_line=(1e16, 1e18), xi_dt=(0, 1), T_dt=(1e2, 1e4), R_dt=(1e17, 1e20))
FREE = {"log10_k", "log10_norm", "p", "p1", "p2", "q", "log10_gamma_b", "log10_gamma_0", "log10_gamma_c", "delta_D", "log10_B", "t_var"}
DEFAULT = dict(z=0.1, delta_D=10, log10_B=-2, t_var=600, mu_s=0, log10_r=18, log10_L_disk=45, M_BH=1e42, m_dot=1e26, R_in=1e14, R_out=1e17, xi_line=0.6, lambda_line=1215.67, R_line=1e17, xi_dt=0.6, T_dt=1e3, R_dt=3e18)
TARGETS = [["blr"], ["dt"], ["blr", "dt"], ["dt", "blr"]]


def names(shape, targets=None):
    """parameter names in order"""
    if targets is None:
        return SHAPE_PARS[shape] + REGION
    return SHAPE_PARS[shape] + REGION_EC + DISK + (BLR if "blr" in targets else []) + (DT if "dt" in targets else [])


@st.composite
def spectrum(draw):
    shape = draw(gen.pick(*(SHAPES + ["Interpolated"])))
    L = dict(LIMITS)
    p = {n: draw(gen.lin(*L[n])) for n in SHAPE_PARS[shape]}
    if "log10_k" in p:
        p["log10_k"] = draw(gen.lin(-9, 6))
    return dict(shape=shape, pars=p, wiggle=draw(st.lists(gen.lin(-0.3, 0.3), min_size=8, max_size=8)))


@st.composite
def pars(draw, ec=None):
    """values of all parameters, within their limits"""
    d = dict(z=draw(gen.logu(1e-3, 3)), delta_D=draw(gen.lin(1, 100)), log10_B=draw(gen.lin(-4, 2)), t_var=draw(gen.logu(10, 3e7)), mu_s=draw(gen.lin(0, 1)), log10_r=draw(gen.lin(16, 20)), log10_L_disk=draw(gen.lin(42, 48)),
             M_BH=draw(gen.logu(1e38, 1e44)), m_dot=draw(gen.logu(1e24, 1e28)), R_in=draw(gen.logu(1e13, 1e15)), xi_line=draw(gen.lin(0, 1)), lambda_line=draw(gen.lin(900, 7000)), R_line=draw(gen.logu(1e16, 1e18)),
             xi_dt=draw(gen.lin(0, 1)), T_dt=draw(gen.lin(100, 1e4)), R_dt=draw(gen.logu(1e17, 1e20)))
    d["R_out"] = d["R_in"] * draw(gen.logu(3, 1e3))
    return d


def table(s):
    """samples of the interpolated distribution, spanning the allowed bounds"""
    lg = np.linspace(0, 8, 8)
    return 10**lg, 10 ** (2 - 2.2 * lg + np.array(s["wiggle"]))


def n_e(s):
    """the distribution object to be wrapped"""
    p = s["pars"]
    if s["shape"] == "Interpolated":
        g, n = table(s)
        return InterpolatedDistribution(g, n * u.Unit("cm-3"), norm=10 ** p["log10_norm"], interpolator=PchipInterpolator)
    return build.dist(desc(s))


def desc(s):
    """description of the distribution with the values of the parameters"""
    p = s["pars"]
    d = {k[6:] if k.startswith("log10_") else k: 10**v if k.startswith("log10_") else v for k, v in p.items()}
    return dict(d, shape=s["shape"], mass="e")


def fun(s):
    if s["shape"] != "Interpolated":
        d = desc(s)
        return lambda g: ref.n_of(d, g), lambda g: ref.ssa_integrand(d, g)
    d = desc(s)
    g0, n0 = table(s)
    f = PchipInterpolator(np.log10(g0), np.log10(n0))

    def n(g):
        ins = (g >= d["gamma_min"] * (1 - 1e-10)) & (g <= d["gamma_max"] * (1 + 1e-10))
        return np.where(ins, d["norm"] * 10 ** f(np.log10(np.clip(g, 1, 1e8))), 0.0)

    return n, lambda g: n(g) * (f.derivative()(np.log10(np.clip(g, 1, 1e8))) - 2) / g


G300 = 10 ** np.linspace(1, 9, 300)


def edges(s):
    d = desc(s)
    return [d[k] for k in ("gamma_min", "gamma_max", "gamma_b") if k in d]


def fine(s, p=None):
    """no bound or break on a node of the grids (rounding decides there)"""
    for e in edges(s):
        if np.any(np.abs(ref.GAMMA_DEFAULT / e - 1) < 1e-9) or (p is not None and np.any(np.abs(G300 / p["delta_D"] / e - 1) < 1e-9)):
            return False
    if p is not None:
        r, R = 10 ** p["log10_r"], p["R_line"]
        if np.any(np.abs(r / R - np.linspace(-1, 1, 100)) < 1e-6) or abs(r / R - 1) < 1e-3:
            return False
    return True


def sed(nu, s, p, targets, ssa, shift=0.0):
    """SED [erg cm-2 s-1] the wrappers should return; thermal emission of the targets from the package"""
    z, dD, B, f = p["z"], p["delta_D"], 10 ** p["log10_B"], None
    dL = Distance(z=z).to_value("cm")
    R = ref.C * p["t_var"] * dD / (1 + z)
    n, S = fun(s)
    g = ref.GAMMA_DEFAULT
    syn = ref.synch_sed(nu, z, dL, dD, B, R, n(g), g)
    if ssa:
        t = ref.ssa_tau(nu, z, dD, B, R, S(g), g)
        syn = syn * np.where(t < 1e-3, 1.0, ref.sphere_attenuation(np.where(t < 1e-3, 1.0, t)))
    parts = dict(synch=syn, ssc=ref.ssc_sed(nu, z, dL, dD, B, R, n(g), g, S(g) if ssa else None))
    if targets is None:
        return parts
    L, r = 10 ** p["log10_L_disk"], 10 ** p["log10_r"]
    LU = u.Unit("erg s-1")
    q = nu * u.Hz
    parts["disk"] = SSDisk.evaluate_multi_T_bb_norm_sed(q, z, L * LU, p["M_BH"] * u.g, p["m_dot"] * u.Unit("g s-1"), p["R_in"] * u.cm, p["R_out"] * u.cm, dL * u.cm).to_value("erg cm-2 s-1")
    if "blr" in targets:
        e = ref.H * ref.C / (p["lambda_line"] * 1e-8) / ref.MEC2
        parts["ec_blr"] = ref.ec_sed(nu, z, dL, dD, p["mu_s"], R, n, G300, *ref.dirs_shell(p["xi_line"] * L, e, p["R_line"], r, 100, 50), shift=shift)
    if "dt" in targets:
        parts["torus"] = RingDustTorus.evaluate_bb_norm_sed(q, z, p["xi_dt"] * L * LU, p["T_dt"] * u.K, p["R_dt"] * u.cm, dL * u.cm).to_value("erg cm-2 s-1")
        parts["ec_dt"] = ref.ec_sed(nu, z, dL, dD, p["mu_s"], R, n, G300, *ref.dirs_ring(p["xi_dt"] * L, 2.7 * ref.KB * p["T_dt"] / ref.MEC2, p["R_dt"], r, 50), shift=shift)
    return parts


def get(model, backend, name):
    return model.parameters[name].value if backend == "gammapy" else getattr(model, name).val


def put(model, backend, name, value):
    if backend == "gammapy":
        model.parameters[name].value = value
    else:
        setattr(model, name, value)
