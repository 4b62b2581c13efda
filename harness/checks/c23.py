"""Runs do not end worse than they started, and converged points are."""
from hypothesis import strategies as st
import numpy as np

from common import expect, grad_tol
from core import Part
from ref import evolve, fid_err, gradient
import gens
import runs

ID = "C23"
RULE = ("A case is a random control problem and a gradient-based or simplex "
        "run on it, with or without bounds, followed by a run from the pulse "
        "it returned. Non-trivial: the first run lowered the error.")

METHODS = ["FMIN_L_BFGS_B", "FMIN_L_BFGS_B", "LBFGSB", "FMIN_BFGS", "BFGS",
           "CG", "L-BFGS-B", "Nelder-Mead"]


def projected(c, g, amps):
    g = g.copy()
    for j in range(g.shape[1]):
        lo = runs.bound(c.get("lb"), j, -np.inf)
        hi = runs.bound(c.get("ub"), j, np.inf)
        x = amps[:, j]
        # a step against the gradient limited to the bounds
        g[:, j] = x - np.clip(x - g[:, j], lo, hi)
    return g


def check(c, rec):
    P, opt = runs.make(c)
    amps = runs.start(c, P, opt)
    dyn = opt.dynamics
    tau = np.array(dyn.tau, dtype=float)
    rec.label(c["alg"] + ":" + c["method"])
    tc = runs.term_conds(c["runs"][0], None)
    res, obs = runs.run(opt, tc)
    natural = not (obs.events and obs.events[-1].exc is not None)
    err0, err1 = float(res.initial_fid_err), float(res.fid_err)
    rec.label("natural" if natural else type(obs.events[-1].exc).__name__)
    slack = 1e-9 * max(1.0, abs(err0))
    ok = np.isfinite(err1)
    goal = bool(res.goal_achieved)
    if natural:
        expect(ok and err1 <= err0 + slack, "the run ended with error %r, "
               "started from %r" % (err1, err0))
        best = min([e.err for e in obs.of("f")] or [err0])
        if c["method"] == "Nelder-Mead" or c["method"] == "FMIN":
            expect(err1 <= best + slack, "the simplex run ended with error "
                   "%r although %r had been found" % (err1, best))
    if natural and obs.native is not None and c["alg"] != "CRAB":
        # the pulse is the one the minimiser settled on
        x = obs.native[1]
        x = np.asarray(x.x if hasattr(x, "x") else x[0])
        expect(np.array_equal(np.reshape(x, res.final_amps.shape),
                              res.final_amps), "the minimiser returned\n%s\n"
               "but the final amplitudes are\n%s" % (x, res.final_amps))
    if goal:
        expect(err1 <= tc.target, "goal achieved with error %r" % err1)
    # a converged point is a stationary point
    conv = bool(res.grad_norm_min_reached)
    if natural and obs.native is not None and c["alg"] != "CRAB":
        # these methods converge by the gradient alone
        n = obs.native[1]
        if c["method"] in ("BFGS", "CG"):
            conv = conv or bool(n.success)
        elif c["method"] == "FMIN_BFGS":
            conv = conv or n[6] == 0
    if (conv and P.fid != "TDA" and
            runs.sane(P, tau, res.final_amps)):
        x = evolve(P, tau, res.final_amps, grads=True)
        g = gradient(P, x)
        ov = abs(np.trace(P.target.conj().T @ x["full"]))
        kink = P.fid in ("PSU", "SU") and fid_err(P, x["full"]) < 1e-9
        if g is not None and (P.fid != "PSU" or ov > 1e-3) and not kink:
            tol = grad_tol(P, x, tau) * g.size / (
                min(1.0, ov) if P.fid == "PSU" else 1.0)
            if c.get("approx"):
                tol += 1e-4 * max(1.0, np.abs(g).max())
            pg = projected(c, g, res.final_amps)
            lim = tc.min_gradient_norm
            expect(np.abs(pg).max() <= lim + 10 * tol + 1e-9,
                   "convergence to the gradient minimum %r reported at a point where the "
                   "projected gradient is\n%s" % (lim, pg))
            rec.label("stationary")
    # again, from there, with a goal which that pulse meets
    if runs.sane(P, tau, res.final_amps):
        d2 = dict(c["runs"][0])
        d2["targ"] = err1 if np.isfinite(err1) else -1.0
        d2["goal"] = None
        again = runs.term_conds(d2, None)
        fin = np.array(res.final_amps)
        if c["alg"] != "CRAB" and c["how"] == "init":
            dyn.initialize_controls(fin.copy())
        r2, o2 = runs.run(opt, again)
        inside = np.array_equal(runs.clip(c, fin), fin)
        if inside:
            expect(bool(r2.goal_achieved), "a run from a pulse with error "
                   "%r and that target did not achieve it: error %r, %s"
                   % (err1, r2.fid_err, r2.termination_reason))
            if c["alg"] != "CRAB":
                expect(np.array_equal(r2.final_amps, fin), "a run from a "
                       "pulse that meets the target changed it from\n%s\nto"
                       "\n%s" % (fin, r2.final_amps))
            else:
                expect(np.allclose(r2.final_amps, fin, rtol=0, atol=1e-12),
                       "a run from a pulse that meets the target changed it")
            expect(len(o2.of("f")) == 1 and not o2.of("it"),
                   "%d error calls and %d iterations from a pulse that meets "
                   "the target" % (len(o2.of("f")), len(o2.of("it"))))
    if not err1 < err0 - 1e-12:
        rec.trivial()


@st.composite
def strat(draw):
    tcs = st.fixed_dictionaries(dict(
        targ=st.sampled_from([-1.0, -1.0, 1e-12, 1e-4, 0.05]),
        min_grad=st.sampled_from([1e-12, 1e-8, 1e-5, 1e-3, 1e-2]),
        max_iter=st.integers(1, 30)))
    if draw(st.integers(0, 4)) == 0:
        c = draw(runs.run_case(algs=("CRAB",), max_runs=1, tcs=tcs,
                               methods=["FMIN", "Nelder-Mead"]))
    else:
        c = draw(runs.run_case(algs=("GRAPE",), max_runs=1, tcs=tcs,
                               methods=METHODS))
    c["how"] = draw(st.sampled_from(["init", "keep"]))
    return c


PARTS = [Part("worse", strat(), check, 3000, 40000)]
