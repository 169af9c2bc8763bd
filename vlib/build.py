"""JSON-able descriptions -> agnpy objects (public constructors only)"""
import numpy as np
import astropy.units as u
from astropy.constants import m_e, m_p
from astropy.cosmology import FlatLambdaCDM

import agnpy.spectra as S
from agnpy.emission_regions import Blob
from agnpy.utils.math import trapz_loglog

# None: the default cosmology
COSMO = {None: None, 50.0: FlatLambdaCDM(H0=50, Om0=0.2)}
MASS = {"e": m_e, "p": m_p}
INTEG = {"trapz": np.trapz, "loglog": trapz_loglog, None: np.trapz}
SHAPE_KEYS = {
    "PowerLaw": ["p"],
    "BrokenPowerLaw": ["p1", "p2", "gamma_b"],
    "LogParabola": ["p", "q", "gamma_0"],
    "ExpCutoffPowerLaw": ["p", "gamma_c"],
    "ExpCutoffBrokenPowerLaw": ["p1", "p2", "gamma_c", "gamma_b"],
}


def length(x):
    """x cm in a unit that depends on the last digits of x"""
    return (x * u.cm).to(["cm", "pc", "AU"][int(float(("%.5e" % x).split("e")[0]) * 1e5 + 0.5) % 3])


def shape_params(d):
    return {k: d[k] for k in SHAPE_KEYS[d["shape"]]}


def dist(d):
    if d is None:
        return None
    cls = getattr(S, d["shape"])
    kw = shape_params(d)
    if "integrator" in d:
        kw["integrator"] = INTEG[d["integrator"]]
    return cls(k=d["k"] * u.Unit("cm-3"), gamma_min=d["gamma_min"], gamma_max=d["gamma_max"], mass=MASS[d["mass"]], **kw)


def blob(b, **over):
    R_b, B = (b["R_b"] * u.cm).to(b.get("uR", "cm")), (b["B"] * u.G).to(b.get("uB", "G"))
    return Blob(
        R_b=R_b, z=b["z"], delta_D=b["delta_D"], Gamma=b["Gamma"], B=B,
        n_e=over.get("n_e", dist(b["n_e"])), n_p=over.get("n_p", dist(b["n_p"])), xi=b["xi"],
        gamma_e_size=b["gamma_e_size"], gamma_p_size=b["gamma_p_size"], cosmology=over.get("cosmology", COSMO[b.get("cosmo")]),
    )
