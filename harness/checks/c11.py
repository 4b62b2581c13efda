"""Termination conditions."""
from hypothesis import strategies as st
import numpy as np

import qutip_qtrl.errors as errors
from common import expect, grad_tol, scale_of
from core import Part
from ref import evolve, fid_err, gradient
import runs

ID = "C11"
RULE = ("A case is a random control problem, an algorithm and method, and one "
        "to three runs with random limits (iterations, error calls, wall "
        "time, minimum gradient, target error; some met by the initial "
        "pulse). The sequence of callback calls seen from outside decides "
        "which condition must have stopped the run. Non-trivial: at least "
        "one run was stopped by a condition or a limit of the minimiser.")

FLAGS = ["goal_achieved", "grad_norm_min_reached", "max_iter_exceeded",
         "max_fid_func_exceeded", "wall_time_limit_exceeded"]
EXC = {errors.GoalAchievedTerminate: "goal_achieved",
       errors.GradMinReachedTerminate: "grad_norm_min_reached",
       errors.MaxFidFuncCallTerminate: "max_fid_func_exceeded",
       errors.MaxWallTimeTerminate: "wall_time_limit_exceeded"}


def check_run(c, P, opt, w, tc, tau, res, obs, rec):
    ev = obs.events
    max_f, max_it = tc.max_fid_func_calls, tc.max_iterations
    targ = tc.target
    nf = ng = nit = 0
    stop = None
    t_first = ev[0].t0 if ev else None
    for i, e in enumerate(ev):
        last = i == len(ev) - 1
        must = None
        maybe = False
        if e.kind == "f":
            nf += 1
            if e.err <= targ:
                must = "goal_achieved"
            elif nf > max_f:
                must = "max_fid_func_exceeded"
        elif e.kind == "g":
            ng += 1
            if e.gnorm < tc.min_gradient_norm:
                must = "grad_norm_min_reached"
        else:
            nit += 1
            # the clock of the run started between the call and its first
            # evaluation
            if e.t0 - t_first > tc.max_wall_time + 2e-3:
                must = "wall_time_limit_exceeded"
            elif e.t1 - obs.t_call > tc.max_wall_time - 2e-3:
                maybe = True
        if e.exc is not None:
            got = EXC.get(type(e.exc))
            expect(last, w + "the run went on after %r" % e.exc)
            expect(got == must or (maybe and must is None and
                                   got == "wall_time_limit_exceeded"),
                   w + "call %d (%s) stopped the run with %s, expected %s "
                   "(error %r target %r, calls %d of %s, gradient norm %r "
                   "minimum %r, elapsed %.4g limit %r)" % (
                       i, e.kind, type(e.exc).__name__, must, e.err, targ,
                       nf, max_f, e.gnorm, tc.min_gradient_norm,
                       e.t1 - obs.t_call, tc.max_wall_time))
            stop = got
        else:
            expect(must is None, w + "call %d (%s) should have stopped the "
                   "run: %s (error %r target %r, calls %d of %s, gradient "
                   "norm %r minimum %r, elapsed %.4g limit %r)" % (
                       i, e.kind, must, e.err, targ, nf, max_f, e.gnorm,
                       tc.min_gradient_norm, e.t0 - obs.t_call,
                       tc.max_wall_time))
    expect(nit <= max_it, w + "%d iterations with limit %r" % (nit, max_it))
    expect(nf <= max_f + 1, w + "%d error calls with limit %r" % (nf, max_f))
    flags = {f: bool(getattr(res, f)) for f in FLAGS}
    reason = res.termination_reason
    expect(bool(reason) and isinstance(str(reason), str) and
           str(reason) not in ("not started yet", "None"),
           w + "termination reason %r" % (reason,))
    if stop is not None:
        rec.label("stop:" + stop)
        expect(flags == {f: f == stop for f in FLAGS}, w + "flags %s after "
               "the run was stopped by %s" % (flags, stop))
        expect(str(reason) == ev[-1].exc.reason, w + "reason %r after %r"
               % (reason, ev[-1].exc.reason))
        return True
    # the minimiser ended by itself
    for f in ("goal_achieved", "wall_time_limit_exceeded"):
        expect(not flags[f], w + "%s set although nothing reached it" % f)
    expect(sum(flags.values()) <= 1, w + "flags %s" % flags)
    why = native_stop(obs)
    rec.label("minimiser:" + str(why))
    if why == "iter":
        expect(flags["max_iter_exceeded"], w + "iteration limit reached, but "
               "flags are %s, reason %r" % (flags, reason))
        expect("iteration" in str(reason).lower(), w + "iteration limit "
               "reached, reason %r" % (reason,))
    elif why == "func":
        expect(flags["max_fid_func_exceeded"], w + "call limit reached, but "
               "flags are %s, reason %r" % (flags, reason))
        expect("evaluations" in str(reason).lower(), w + "call limit "
               "reached, reason %r" % (reason,))
    elif why == "grad":
        expect(flags["grad_norm_min_reached"], w + "gradient tolerance "
               "reached, but flags are %s, reason %r" % (flags, reason))
    elif why == "other":
        expect(not any(flags.values()), w + "flags %s, but the minimiser "
               "reported %r" % (flags, obs.native[1]))
    # soundness of the reported flags whatever the minimiser said
    if flags["max_iter_exceeded"] and not (why == "iter" and
                                           c["method"] == "SLSQP"):
        # (SLSQP counts iterations for which it does not call back)
        expect(nit >= max_it - 1, w + "max_iter_exceeded after %d of %d "
               "iterations" % (nit, max_it))
    if flags["max_fid_func_exceeded"]:
        expect(nf >= max_f, w + "max_fid_func_exceeded after %d of %d calls"
               % (nf, max_f))
    return why in ("iter", "func")


def native_stop(obs):
    """Why did scipy's minimiser stop?  None when it was not observed."""
    if obs.native is None:
        return None
    name, r = obs.native
    if name == "fmin_l_bfgs_b":
        d = r[2]
        if d["warnflag"] == 0:
            return "grad" if "GRADIENT" in str(d["task"]) else "other"
        if d["warnflag"] == 1:
            return "func" if "EVALUATIONS" in str(d["task"]) else "iter"
        return "other"
    if name == "fmin_bfgs":
        return {0: "grad", 1: "iter"}.get(r[6], "other")
    if name == "fmin":
        return {1: "func", 2: "iter"}.get(r[4], "other")
    if r.success:
        return "converged"
    m = str(r.message).lower()
    if "evaluations" in m:
        return "func"
    return "iter" if "iteration" in m else "other"


def check(c, rec):
    hit = False
    for P, opt, i, tc, tau, amps, res, obs in runs.each_run(c, rec):
        w = "run %d: " % i
        if check_run(c, P, opt, w, tc, tau, res, obs, rec):
            hit = True
        # the values the decisions are based on are the true ones
        for e in (obs.events[:1] + obs.events[-2:]):
            if not runs.sane(P, tau, e.amps):
                continue
            x = evolve(P, tau, e.amps, grads=e.kind == "g")
            s = scale_of(x) + np.linalg.norm(P.target)
            if e.kind == "f":
                want = fid_err(P, x["full"])
                expect(abs(e.err - want) <= 1e-9 * max(1.0, s * s) *
                       max(1.0, P.p.get("scale") or 1.0),
                       w + "error %r, reference %r" % (e.err, want))
            elif e.kind == "g" and P.fid != "TDA":
                g = gradient(P, x)
                if g is None:
                    continue
                nrm = np.sqrt((g ** 2).sum())
                tol = grad_tol(P, x, tau) * g.size
                if P.fid == "PSU":
                    ov = abs(np.trace(P.target.conj().T @ x["full"]))
                    if ov < 1e-3:
                        continue
                    tol /= min(1.0, ov)
                if abs(x["fwd"][-1]).max() > 1e6:
                    continue
                # |1-F| has a kink at F=1
                if P.fid in ("PSU", "SU") and fid_err(P, x["full"]) < 1e-12:
                    continue
                expect(abs(e.gnorm - nrm) <= 10 * tol + 1e-9,
                       w + "gradient norm %r, reference %r" % (e.gnorm, nrm))
    if not hit:
        rec.trivial()


# ------------------------------------------------- real elapsed time
@st.composite
def wall_case(draw):
    c = draw(runs.run_case(max_runs=1, max_ts=3, tcs=st.just({})))
    c["runs"] = [dict(targ=-1.0, min_grad=1e-30, max_iter=8,
                      wall=draw(st.sampled_from([0.005, 0.01, 0.03])),
                      delay=draw(st.sampled_from([0.004, 0.012])))]
    return c


PARTS = [Part("limits", runs.run_case(), check, 4000, 60000),
         Part("wall", wall_case(), check, 160, 1600)]
