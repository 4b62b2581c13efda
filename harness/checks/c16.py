"""Adaptive GRAPE."""
from hypothesis import strategies as st
import numpy as np

from checks.c15 import G, strat as grape_case, unchanged
from common import expect
from core import Part, Violation

import qutip_qtrl.grape as grape

ID = "C16"
RULE = ("A case is a GRAPE problem as for C15 with an overlap at which to "
        "stop. Every recorded iterate must be the best of the three "
        "candidates reached from its predecessor with half, the same and "
        "twice the current step, or its predecessor when all of them are "
        "worse. Non-trivial: at least one step is accepted and changes the "
        "pulse.")


def check(c, rec):
    p = c["p"]
    g = G(p)
    a, kw = g.args()
    t = c["term"]
    if isinstance(t, dict):
        # just above or below an overlap that is reached
        r = grape.grape_unitary_adaptive(*a, **kw)
        o = np.array(r.overlap)[: g.R - 1]
        t = min(float(o[t["at"] % len(o)]) + t["d"], 1.0)
        a, kw = g.args()
        rec.label("overlap target near")
    if t is not None:
        kw["overlap_terminate"] = t
    r = grape.grape_unitary_adaptive(*a, **kw)
    kw.pop("overlap_terminate", None)
    unchanged(a, kw, *g.args())
    u = np.array(r.u)
    n = len(u)
    expect(u.ndim == 3 and u.shape[1:] == (g.J, g.M) and 2 <= n <= g.R,
           "iterates have shape %s" % (u.shape,))
    if not np.array_equal(u[0], g.first()):
        raise Violation("initial pulse is\n%s\nexpected\n%s"
                        % (u[0], g.first()))
    if g.lim:
        expect(u.min() >= g.lim[0] and u.max() <= g.lim[1],
               "limits %s violated:\n%s" % (g.lim, u))
    bad = [i for i in range(n) if not g.noise(u[i]) < 1e5]
    if bad:
        # penalties drove the pulse out of the range of floating point numbers
        rec.label("pulse out of range")
        n = max(bad[0], 1)
    last, u = u[-1], u[:n]
    ov = [g.overlap(x) for x in u]
    TOL = 1e-10 * max(g.noise(x) for x in u)
    steps = {g.eps}
    acc = rej = 0
    for i in range(n - 1):
        expect(ov[i + 1] >= ov[i] - TOL, "overlap decreases from %r to %r in "
               "iteration %d" % (ov[i], ov[i + 1], i))
        expect(abs(float(r.overlap[i]) - ov[i + 1]) <= 10 * TOL,
               "logged overlap of iteration %d is %r, that of the recorded "
               "pulse is %r" % (i, r.overlap[i], ov[i + 1]))
        grad = g.gradient(u[i])
        nxt = set()
        same = np.array_equal(u[i + 1], u[i])
        detail = []
        for e in steps:
            es = (e / 2, e, 2 * e)
            vs = [g.step(u[i], x, grad) for x in es]
            os_ = [g.overlap(v) for v in vs]
            tl = max(TOL, 1e-10 * max(g.noise(v) for v in vs))
            m = max(os_)
            detail.append((e, os_))
            if m <= ov[i] + tl and same:
                nxt.add(e / 2)
            if m >= ov[i] - tl:
                for k in range(3):
                    tol = 1e-10 * (1 + np.abs(u[i]).max()) * (1 + es[k]) * (
                        1 + abs(p["alpha"] or 0)
                        + g.M ** 2 * abs(p["beta"] or 0)) * g.noise(u[i])
                    if os_[k] >= m - tl and \
                            np.abs(vs[k] - u[i + 1]).max() <= tol:
                        nxt.add(es[k])
        if not nxt:
            raise Violation(
                "iterate %d (overlap %r) is not the best of the candidates "
                "(step, overlaps) %s from its predecessor (overlap %r)"
                % (i + 1, ov[i + 1], detail, ov[i]))
        steps = nxt
        if same:
            rej += 1
        else:
            acc += 1
    if bad:
        return
    if t is None or t >= 1.0:
        expect(n == g.R, "%d iterates, %d requested" % (n, g.R))
    else:
        for i in range(1, n - 1):
            expect(ov[i] <= t + TOL, "iterate %d has overlap %r, above %r, "
                   "but iterations went on" % (i, ov[i], t))
        if n < g.R:
            expect(ov[-1] > t - TOL, "stopped after %d iterations with "
                   "overlap %r, below %r" % (n - 1, ov[-1], t))
            rec.label("terminated")
    g.check_outputs(r, last, "", rec)
    rec.label("phase sensitive" if p["ps"] else "modulus",
              "interp %s" % p["interp"])
    if acc and rej:
        rec.label("steps accepted and rejected")
    if g.lim:
        rec.label("limits")
    if not acc:
        rec.trivial()


@st.composite
def strat(draw):
    p = draw(grape_case(2, 9))
    if p["M"] <= 4 and draw(st.integers(0, 3)) == 0:
        # many iterations: the step becomes very small or large
        p["R"] = draw(st.integers(10, 40))
        if draw(st.booleans()):
            p["eps"] = 2.0 ** draw(st.integers(6, 14))
    return dict(p=p, term=draw(st.sampled_from(
        [None, None, 1.0, 0.5, 0.8, 0.2, 0.99]) | st.fixed_dictionaries(dict(
            at=st.integers(0, 9), d=st.sampled_from(
                [1e-8, -1e-8, 1e-7, -1e-5, 1e-4])))))


PARTS = [Part("iterates", strat(), check, 2000, 30000)]
