"""Shared oracle helpers."""
import numpy as np

from build import arr
from core import Violation


def close(a, b, scale, what, tol=1e-8):
    a, b = arr(a), arr(b)
    if a.shape != b.shape:
        raise Violation("%s: shape %s, expected %s" % (what, a.shape, b.shape))
    err = np.abs(a - b).max() if a.size else 0.0
    if not err <= tol * max(1.0, scale):
        raise Violation("%s differs from the reference by %g (scale %g)\n"
                        "got\n%s\nexpected\n%s" % (what, err, scale, a, b))


def close_s(a, b, what, tol=1e-9):
    if not abs(a - b) <= tol * max(1.0, abs(b)):
        raise Violation("%s is %r, expected %r" % (what, a, b))


def expect(cond, msg):
    if not cond:
        raise Violation(msg)


def scale_of(ev):
    s = 1.0
    for u in ev["props"]:
        s *= max(1.0, np.linalg.norm(u, 2))
    return s * max(1.0, np.linalg.norm(ev["fwd"][0]))


def check_tau(P, tau):
    if len(tau) != P.nts or np.abs(tau - P.tau).max() > 1e-6 * P.tau.max():
        raise Violation("slot durations %s, expected %s" % (tau, P.tau))


def grad_scale(P, ev):
    """Magnitude scale of the terms summed in the gradient, and the smallest
    not exactly degenerate eigenvalue gap (for unitary dynamics)."""
    s = 0.0
    for k in range(P.nts):
        for j in range(P.nc):
            s = max(s, np.linalg.norm(ev["dprops"][k][j]))
    s *= scale_of(ev)
    return s * max(1.0, np.linalg.norm(P.target))


def min_gap(P, tau):
    gap = np.inf
    for k in range(P.nts):
        w = np.linalg.eigvalsh(P.H(k)) * tau[k]
        d = np.abs(w[:, None] - w[None, :])
        d = d[d > 0.5e-10]
        if d.size:
            gap = min(gap, d.min())
    return gap


def aug_tol(P, tau):
    """scipy exponentiates a triangular (augmented) matrix through the
    difference quotients of its diagonal, which cancel if nearly equal."""
    gap = np.inf
    if P.p.get("prop") == "AUG_MAT":
        for k in range(P.nts):
            g = P.phase(P.H(k))
            if np.triu(g, 1).any() and np.tril(g, -1).any():
                continue
            w = np.diag(g) * tau[k]
            d = np.abs(w[:, None] - w[None, :])
            d = d[d > 0]
            if d.size:
                gap = min(gap, d.min())
    return 1e-15 / gap


def grad_tol(P, ev, tau):
    sc = max(1.0, grad_scale(P, ev) * P.uamp) / P.uamp
    tol = 1e-9 * sc
    if P.dyn == "UNIT" and P.p.get("prop", "DEF") in ("DEF", "DIAG"):
        tol += sc * (2e-14 / min_gap(P, tau) + 2e-10)
    tol += sc * aug_tol(P, tau)
    if P.fid == "TD":
        tol *= max(1.0, P.p.get("scale") or 1.0) * 4
    elif P.fid in ("PSU", "SU"):
        tol *= max(1.0, 1 / np.linalg.norm(P.target) ** 2)
    return tol
