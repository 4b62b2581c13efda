"""Results describe the runs that produced them."""
from hypothesis import strategies as st
import numpy as np
from qutip import Qobj

from build import arr
from common import expect, scale_of
from core import Part, Violation
import runs

ID = "C09"
RULE = ("A case is a random control problem, an algorithm and method, and one "
        "to three runs with random termination conditions, each result being "
        "compared with an independent evaluation at the pulses it names and "
        "with the calls seen from outside. Non-trivial: the pulse changed "
        "during at least one run.")


def err_tol(P, ev):
    s = scale_of(ev) + np.linalg.norm(P.target)
    return 1e-9 * max(1.0, s * s) * max(1.0, P.p.get("scale") or 1.0), s


def check_eval(P, tau, amps, err, evo, what, rec):
    if not runs.sane(P, tau, amps):
        rec.label("huge, not compared")
        return False
    ev, want = runs.reference(P, tau, amps)
    tol, s = err_tol(P, ev)
    if not np.isfinite(s) or s > 1e6:
        rec.label("huge, not compared")
        return False
    expect(abs(float(err) - want) <= tol,
           "%s error is %r, but the %s amplitudes give %r"
           % (what, err, what, want))
    expect(isinstance(evo, Qobj), "%s evolution is a %s" % (what, type(evo)))
    U = arr(evo)
    if U.shape != ev["full"].shape or \
            not np.abs(U - ev["full"]).max() <= 1e-9 * s:
        raise Violation("%s evolution is\n%s\nbut the %s amplitudes give\n%s"
                        % (what, U, what, ev["full"]))
    return True


def check(c, rec):
    moved = False
    for P, opt, i, tc, tau, amps, res, obs in runs.each_run(c, rec):
        w = "run %d: " % i
        crab = c["alg"] == "CRAB"
        shape = (P.nts, P.nc)
        for nm in ("initial_amps", "final_amps"):
            expect(np.shape(getattr(res, nm)) == shape, w + nm +
                   " has shape %s" % (np.shape(getattr(res, nm)),))
        expect(np.array_equal(res.initial_amps, amps), w + "initial_amps\n%s\n"
               "but the run was started from\n%s" % (res.initial_amps, amps))
        check_eval(P, tau, res.initial_amps, res.initial_fid_err,
                   res.evo_full_initial, w + "initial", rec)
        check_eval(P, tau, res.final_amps, res.fid_err, res.evo_full_final,
                   w + "final", rec)
        if res.evo_full_final is not None:
            expect(res.evo_full_final.dims == opt.dynamics.initial.dims and
                   res.evo_full_initial.dims == opt.dynamics.initial.dims,
                   w + "dims of the evolutions %s, %s, initial has %s" % (
                       res.evo_full_initial.dims, res.evo_full_final.dims,
                       opt.dynamics.initial.dims))
        f = obs.of("f")
        # the first evaluation is at the initial pulse
        if f and not (crab and c["method"] in ("L-BFGS-B",)):
            expect(np.allclose(f[0].amps, amps, rtol=0, atol=1e-12), w +
                   "first evaluation at\n%s\nbut the initial amplitudes are"
                   "\n%s" % (f[0].amps, amps))
        # the returned pulse is one that was evaluated
        if f:
            expect(any(np.allclose(e.amps, res.final_amps, rtol=0,
                                   atol=1e-12) for e in obs.events),
                   w + "final amplitudes were never evaluated\n%s"
                   % (res.final_amps,))
        targ = tc.target
        expect(bool(res.goal_achieved) == (res.fid_err <= targ),
               w + "goal_achieved=%r with fidelity error %r and target %r"
               % (res.goal_achieved, res.fid_err, targ))
        expect(res.num_fid_func_calls == len(f), w + "num_fid_func_calls=%r, "
               "%d calls seen" % (res.num_fid_func_calls, len(f)))
        expect(res.num_iter == len(obs.of("it")), w + "num_iter=%r, %d "
               "iteration callbacks seen" % (res.num_iter,
                                             len(obs.of("it"))))
        want = np.concatenate([[0.0], np.cumsum(tau)])
        expect(np.shape(res.time) == want.shape and
               np.allclose(res.time, want, rtol=1e-9, atol=1e-12),
               w + "time %s, expected %s" % (res.time, want))
        expect(0 <= res.wall_time <= obs.t_ret - obs.t_call + 1e-3,
               w + "wall time %r, but the call took %r"
               % (res.wall_time, obs.t_ret - obs.t_call))
        expect(res.optimizer is opt, w + "optimizer attribute")
        if not np.isfinite(res.fid_err):
            ok = not np.isfinite(res.fidelity)
        elif P.fid in ("PSU", "SU"):
            ok = abs(abs(1 - res.fidelity) - res.fid_err) <= 1e-12
        else:
            ok = abs(1 - res.fidelity - res.fid_err) <= 1e-12 * max(
                1.0, abs(res.fid_err))
        expect(ok, w + "fidelity %r with fidelity error %r"
               % (res.fidelity, res.fid_err))
        if not np.array_equal(res.final_amps, res.initial_amps):
            moved = True
        rec.label("fid=" + P.fid, "dyn=" + P.dyn,
                  "state" if P.p["state"] else "operator",
                  "goal" if res.goal_achieved else "no goal")
    if not moved:
        rec.trivial()


# ----------------------------------------------- steps of the simplex search
@st.composite
def steps_case(draw):
    c = draw(runs.run_case(algs=("CRAB",), methods=["FMIN"], max_ts=3))
    c["rec"] = [draw(st.integers(0, 3)) > 0 for _ in c["runs"]]
    return c


def check_steps(c, rec):
    recs = c["rec"]
    some = False
    P, opt = runs.make(c)
    runs.start(c, P, opt)
    for i, d in enumerate(c["runs"]):
        opt.record_iteration_steps = recs[i]
        x0 = np.concatenate([np.ravel(pg.get_optim_var_vals())
                             for pg in opt.pulse_generator])
        tc = runs.term_conds(d, 1.0)
        res, obs = runs.run(opt, tc)
        its = opt.iteration_steps
        stopped = any(e.exc is not None for e in obs.events)
        if not recs[i] or stopped:
            expect(its is None, "run %d, recording %s, %s: iteration steps "
                   "%s" % (i, recs[i], "stopped" if stopped else "complete",
                           its))
            rec.label("stopped" if recs[i] else "not recorded")
            continue
        some = True
        xs = [np.ravel(e.x) for e in obs.of("it")]
        expect(len(its) == len(xs) + 1 == res.num_iter + 1,
               "run %d: %d steps recorded, %d iterations" % (
                   i, len(its), len(xs)))
        for k, (a, b) in enumerate(zip(its, [x0] + xs)):
            expect(np.array_equal(np.ravel(a), b), "run %d: step %d is %s, "
                   "the search was at %s" % (i, k, a, b))
        if not xs:
            continue
        last = np.empty((P.nts, P.nc))
        off = 0
        for j, pg in enumerate(opt.pulse_generator):
            n = len(pg.get_optim_var_vals())
            pg.set_optim_var_vals(np.array(its[-1])[off:off + n])
            last[:, j] = pg.gen_pulse()
            off += n
        expect(np.allclose(last, res.final_amps, rtol=0, atol=1e-12),
               "run %d: the last step gives\n%s\nbut the result is\n%s" % (
                   i, last, res.final_amps))
        rec.label("%d steps" % min(len(xs), 8))
    if not some:
        rec.trivial()


PARTS = [Part("result", runs.run_case(), check, 5000, 60000),
         Part("steps", steps_case(), check_steps, 800, 8000)]
