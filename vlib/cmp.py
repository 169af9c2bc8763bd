"""comparison helpers, all raising Violation"""
import numpy as np
import astropy.units as u

from .runner import Violation


def val(q, unit, what="value"):
    """plain float array of a Quantity; Violation if it is not one or has the wrong dimensions"""
    if not isinstance(q, u.Quantity):
        if unit == "" and isinstance(q, (float, int, np.ndarray, np.number)):
            return np.asarray(q, dtype=float)
        raise Violation("%s is %r, not a quantity in %s" % (what, type(q).__name__, unit))
    try:
        return np.asarray(q.to_value(unit), dtype=float)
    except u.UnitConversionError as e:
        raise Violation("%s has the wrong dimensions: %s" % (what, e))


def ensure(cond, msg):
    if not cond:
        raise Violation(msg)


def _fmt(a):
    a = np.asarray(a).ravel()
    return np.array2string(a[:6], precision=10) + (" ..." if a.size > 6 else "")


def close(actual, expected, rtol, what, atol=0.0, floor=0.0):
    """|actual - expected| <= rtol*|expected| + atol + floor*max|expected|, same shape, finite where expected is"""
    a = np.asarray(actual, dtype=float)
    e = np.asarray(expected, dtype=float)
    if a.shape != e.shape:
        if a.size == e.size == 1:
            a, e = a.reshape(()), e.reshape(())
        else:
            raise Violation("%s: shape %s instead of %s" % (what, a.shape, e.shape))
    fin = np.isfinite(e)
    m = np.max(np.abs(e[fin])) if fin.any() else 0.0
    with np.errstate(all="ignore"):
        ok = np.abs(a - e) <= rtol * np.abs(e) + atol + floor * m
    ok = np.where(fin, ok, (np.isnan(e) & np.isnan(a)) | (e == a))
    if not np.all(ok):
        i = np.argmax(~np.atleast_1d(ok).ravel())
        av, evl = np.atleast_1d(a).ravel()[i], np.atleast_1d(e).ravel()[i]
        raise Violation(
            "%s: got %.12g, expected %.12g (ratio %.9g) at flat index %d of %d (rtol %g)\n got      %s\n expected %s"
            % (what, av, evl, av / evl if evl else float("nan"), i, a.size, np.max(rtol), _fmt(a), _fmt(e))
        )


def raises(excs, fn, what):
    """fn() must raise one of excs"""
    try:
        fn()
    except excs:
        return
    except Exception as e:  # noqa: BLE001
        raise Violation("%s: raised %s (%s) instead of %s" % (what, type(e).__name__, e, excs))
    raise Violation("%s: was accepted silently" % what)


def close_noisy(actual, model, rtol, what, **kw):
    """close() to model(0), allowing what rounding of the cosines (model(+-shift)) changes where photons run parallel to the jet"""
    want = model(0.0)
    try:
        close(actual, want, rtol, what, **kw)
    except Violation:
        noise = sum(np.abs(model(s) - want) for s in (-1e-15, 1e-15))
        close(actual, want, rtol, what, **dict(kw, atol=kw.get("atol", 0.0) + noise))
