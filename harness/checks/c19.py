"""Statistics."""
import contextlib
import datetime
import io
import math

from hypothesis import strategies as st
import numpy as np

import qutip_qtrl.stats as qstats
from build import optimizer
from common import expect
from core import Part
import gens
from ref import Prob
import runs

ID = "C19"
RULE = ("A case is a random control problem with statistics enabled, an "
        "algorithm and method and one to three runs with random limits; the "
        "counters are recomputed from the calls and amplitudes seen from "
        "outside (runs); or a list of partial and full updates, error and "
        "gradient evaluations and other reads, on grids of up to 60 slots "
        "(updates). Or random counter values of a statistics object, whose "
        "averages and report are recomputed. Non-trivial: at least one "
        "amplitude update happened (runs, updates), some counter is positive "
        "(objects).")


def num(a, b):
    return a / b if b else float("nan")


def same(a, b):
    return a == b or (isinstance(a, float) and math.isnan(a) and
                      math.isnan(b)) or abs(a - b) <= 1e-9 * abs(b)


def check(c, rec):
    c = dict(c, stats=True)
    changed_any = False
    cur_g = False
    earlier = []
    for P, opt, i, tc, tau, amps, res, obs in runs.each_run(c, rec):
        w = "run %d: " % i
        s = res.stats
        expect(s is not None, w + "no statistics")
        fresh = runs.fresh(c, i)
        # after initialising the controls nothing is current; after a run
        # the evolution and error are, the gradient may be
        # (each_run computes the error to derive a relative target from it)
        cur_e = not fresh or isinstance(c["runs"][i].get("targ"), dict)
        if fresh:
            cur_g = False
        cur_f = cur_e
        m = dict(num_tslot_recompute=0, num_fidelity_computes=0,
                 num_grad_computes=0, num_ctrl_amp_updates=0,
                 num_ctrl_amp_changes=0, num_timeslot_changes=0)
        state = dict(a=np.array(amps), e=cur_e, f=cur_f, g=cur_g)
        exact = np.isfinite(amps).all()

        def move(a):
            d = state["a"] != a
            if d.any():
                m["num_ctrl_amp_updates"] += 1
                m["num_ctrl_amp_changes"] += int(d.sum())
                m["num_timeslot_changes"] += int(d.any(axis=1).sum())
                state.update(a=a, e=False, f=False, g=False)

        def evolve():
            if not state["e"]:
                m["num_tslot_recompute"] += 1
                state["e"] = True

        def fid():
            evolve()
            if not state["f"]:
                m["num_fidelity_computes"] += 1
                state["f"] = True

        fid()       # the initial error of the result
        for e in obs.events:
            exact = exact and np.isfinite(e.amps).all()
            if e.kind == "f":
                move(e.amps)
                fid()
            elif e.kind == "g":
                move(e.amps)
                # the gradient of the normalised error needs the fidelity
                # itself; only exact where that is known already
                if not state["f"]:
                    exact = False
                evolve()
                if not state["g"]:
                    m["num_grad_computes"] += 1
                    state["g"] = True
        move(np.array(res.final_amps))
        fid()       # the final error
        cur_g = state["g"]
        nf, ng, nit = (len(obs.of(k)) for k in ("f", "g", "it"))
        calls = dict(num_fidelity_func_calls=nf, num_grad_func_calls=ng,
                     num_iter=res.num_iter)
        for k, v in calls.items():
            expect(getattr(s, k) == v, w + "%s is %r, observed %r"
                   % (k, getattr(s, k), v))
        if exact:
            for k, v in m.items():
                if k == "num_grad_computes" and P.fid == "TDA":
                    continue
                expect(int(getattr(s, k)) == v, w + "%s is %r, observed %r"
                       % (k, getattr(s, k), v))
        else:
            rec.label("not exact")
        changed_any = changed_any or m["num_ctrl_amp_updates"] > 0
        averages(s, w)
        parts = [s.wall_time_dyn_gen_compute, s.wall_time_prop_compute,
                 s.wall_time_fwd_prop_compute, s.wall_time_onwd_prop_compute,
                 s.wall_time_gradient_compute]
        expect(min(parts) >= 0, w + "negative time %s" % parts)
        # (the final evolution may be computed after the end of the search)
        whole = obs.t_ret - obs.t_call
        expect(sum(parts) <= whole + 1e-6, w + "times %s sum up to more than "
               "the %g s of the run" % (parts, whole))
        expect(abs(s.wall_time_optim - res.wall_time) <= 1e-6, w +
               "wall_time_optim %r, result %r" % (s.wall_time_optim,
                                                  res.wall_time))
        expect(0 <= s.wall_time_optim <= obs.t_ret - obs.t_call + 1e-3, w +
               "wall_time_optim %r, observed %r" % (
                   s.wall_time_optim, obs.t_ret - obs.t_call))
        for nm in ("wall_time_dyn_gen_compute", "wall_time_prop_compute",
                   "wall_time_fwd_prop_compute"):
            expect((getattr(s, nm) > 0) == (s.num_tslot_recompute > 0),
                   w + "%s is %r with %d computations of the evolution" % (
                       nm, getattr(s, nm), s.num_tslot_recompute))
        expect(s.wall_time_gradient_compute == 0 or s.num_grad_computes > 0,
               w + "time for gradients without gradients")
        for k, (es, d) in enumerate(earlier):
            expect(dict_of(es) == d, w + "changed the statistics of run %d"
                   % k)
        expect(all(es is not s for es, _ in earlier), w + "shares its "
               "statistics with an earlier run")
        earlier.append((s, dict_of(s)))
    if not changed_any:
        rec.trivial()


def dict_of(s):
    return {k: repr(v) for k, v in vars(s).items()}


def averages(s, w):
    for nm, a, b in (
            ("mean_num_ctrl_amp_updates_per_iter", s.num_ctrl_amp_updates,
             s.num_iter),
            ("mean_num_timeslot_changes_per_update", s.num_timeslot_changes,
             s.num_ctrl_amp_updates),
            ("mean_num_ctrl_amp_changes_per_update", s.num_ctrl_amp_changes,
             s.num_ctrl_amp_updates)):
        got = float(getattr(s, nm))
        ok = same(got, num(a, b))
        if not b and not a:
            ok = True       # nothing to average
        expect(ok, w + "%s is %r, but %r / %r" % (nm, got, a, b))


# ------------------------------------------------------------------- updates
@st.composite
def updates_case(draw):
    p = draw(gens.problem_cfg(big=4))
    if draw(st.integers(0, 2)) == 1:
        # a long grid: few operators, the amplitudes repeat
        nts = draw(st.integers(8, 60))
        for k in ("drift", "ctrls"):
            p[k] = p[k][:1]
        p["nts"], p["td"], p["tc"] = nts, False, False
        a = p["amps"]
        p["amps"] = [a[(5 * k) % len(a)] for k in range(nts)]
        p["tau"] = 0.125 if isinstance(p["tau"], float) else [
            (1 + k % 3) / 16.0 for k in range(nts)]
    nts, nc = p["nts"], p["nc"]
    op = st.fixed_dictionaries(dict(
        op=st.sampled_from(["err", "err", "grad", "grad", "update", "evo",
                            "fid", "gradient", "full"]),
        how=st.sampled_from(["same", "one", "some", "some", "shift", "all",
                             "first"]),
        d=st.sampled_from([0.125, -0.25, 1.0, 1e-9]),
        at=st.lists(st.tuples(st.integers(0, nts - 1),
                              st.integers(0, nc - 1)), min_size=1,
                    max_size=12)))
    return dict(p=p, ops=draw(st.lists(op, min_size=2, max_size=12)),
                m=draw(st.sampled_from(["FMIN_L_BFGS_B", "FMIN_BFGS",
                                        "CG", "NELDER-MEAD"])))


KEYS = ["num_tslot_recompute", "num_fidelity_computes", "num_grad_computes",
        "num_ctrl_amp_updates", "num_ctrl_amp_changes",
        "num_timeslot_changes", "num_fidelity_func_calls",
        "num_grad_func_calls"]


def check_updates(c, rec):
    P = Prob(c["p"])
    opt = optimizer(P, optim_method=c["m"], gen_stats=True)
    dyn = opt.dynamics
    tc = opt.termination_conditions
    tc.fid_err_targ = tc.min_gradient_norm = -1.0
    tc.max_fid_func_calls = 10 ** 9
    cur = np.array(P.amps)
    dyn.initialize_controls(cur.copy())
    opt.init_optim(tc)
    opt.wall_time_optimize_start = 1e18
    s = dyn.stats
    e = f = g = False
    moved = False
    for i, o in enumerate(c["ops"]):
        t, what = o["op"], "step %d (%s)" % (i, o["op"])
        a = cur.copy()
        if t in ("err", "grad", "update"):
            if o["how"] == "all":
                a = a + o["d"]
            elif o["how"] == "shift":
                a = np.roll(a, 1, axis=0)
            elif o["how"] == "first":
                a[:, 0] += o["d"]
            elif o["how"] != "same":
                for k, j in o["at"][:1 if o["how"] == "one" else None]:
                    a[k, j] += o["d"]
        d = a != cur
        before = {k: getattr(s, k) for k in KEYS}
        m = dict.fromkeys(KEYS, 0)
        either = []
        if d.any():
            m["num_ctrl_amp_updates"] = 1
            m["num_ctrl_amp_changes"] = int(d.sum())
            m["num_timeslot_changes"] = int(d.any(axis=1).sum())
            e = f = g = False
            moved = True
        cur = a
        if t != "update":
            if not e:
                m["num_tslot_recompute"] = 1
            e = True
        if t in ("err", "fid"):
            m["num_fidelity_computes"] = int(not f)
            f = True
        elif t in ("grad", "gradient"):
            m["num_grad_computes"] = int(not g)
            g = True
            if not f:
                either.append("num_fidelity_computes")
            if P.fid == "TDA":
                either.append("num_grad_computes")
        if t == "err":
            m["num_fidelity_func_calls"] = 1
            opt.fid_err_func_wrapper(a.ravel().copy())
        elif t == "grad":
            m["num_grad_func_calls"] = 1
            opt.fid_err_grad_wrapper(a.ravel().copy())
        elif t == "update":
            dyn.update_ctrl_amps(a.copy())
        elif t == "evo":
            dyn.compute_evolution()
        elif t == "full":
            dyn.compute_evolution()
            dyn.full_evo
        elif t == "fid":
            dyn.fid_computer.get_fid_err()
        else:
            dyn.fid_computer.get_fid_err_gradient()
        for k in KEYS:
            got = int(getattr(s, k) - before[k])
            if k in either and got in (m[k], 1 - m[k]):
                if k == "num_fidelity_computes":
                    f = got == 1
                continue
            expect(got == m[k], "%s: %s went up by %r, expected %r" % (
                what, k, got, m[k]))
        rec.label(t)
    s.calculate()
    averages(s, "")
    if not moved:
        rec.trivial()


# ------------------------------------------------------------------- objects
COUNTS = ["num_iter", "num_fidelity_func_calls", "num_grad_func_calls",
          "num_tslot_recompute", "num_fidelity_computes", "num_grad_computes",
          "num_ctrl_amp_updates", "num_timeslot_changes",
          "num_ctrl_amp_changes"]
TIMES = ["wall_time_dyn_gen_compute", "wall_time_prop_compute",
         "wall_time_fwd_prop_compute", "wall_time_onwd_prop_compute",
         "wall_time_gradient_compute"]
DCOUNTS = ["num_dyn_gen_computes", "num_prop_computes",
           "num_fwd_prop_step_computes", "num_onwd_prop_step_computes"]
DMEANS = [("mean_num_dyn_gen_computes_per_update", "num_dyn_gen_computes",
           "num_ctrl_amp_updates"),
          ("mean_num_prop_computes_per_update", "num_prop_computes",
           "num_ctrl_amp_updates"),
          ("mean_num_fwd_prop_step_computes_per_update",
           "num_fwd_prop_step_computes", "num_ctrl_amp_updates"),
          ("mean_num_onwd_prop_step_computes_per_update",
           "num_onwd_prop_step_computes", "num_ctrl_amp_updates"),
          ("mean_wall_time_dyn_gen_compute", "wall_time_dyn_gen_compute",
           "num_dyn_gen_computes"),
          ("mean_wall_time_prop_compute", "wall_time_prop_compute",
           "num_prop_computes"),
          ("mean_wall_time_fwd_prop_compute", "wall_time_fwd_prop_compute",
           "num_fwd_prop_step_computes"),
          ("mean_wall_time_onwd_prop_compute", "wall_time_onwd_prop_compute",
           "num_onwd_prop_step_computes")]


LINES = [
    ("Number of iterations", "num_iter"),
    ("Number of fidelity function calls", "num_fidelity_func_calls"),
    ("Number of times fidelity is computed", "num_fidelity_computes"),
    ("Number of gradient function calls", "num_grad_func_calls"),
    ("Number of times gradients are computed", "num_grad_computes"),
    ("Number of times timeslot evolution is recomputed",
     "num_tslot_recompute"),
    ("Number of control amplitude updates", "num_ctrl_amp_updates"),
    ("Mean number of updates per iteration",
     "mean_num_ctrl_amp_updates_per_iter"),
    ("Number of timeslot values changed", "num_timeslot_changes"),
    ("Mean number of timeslot changes per update",
     "mean_num_timeslot_changes_per_update"),
    ("Number of amplitude values changed", "num_ctrl_amp_changes"),
    ("Mean number of amplitude changes per update",
     "mean_num_ctrl_amp_changes_per_update"),
    ("Total wall time elapsed during optimisation", "wall_time_optim"),
    ("Wall time computing Hamiltonians", "wall_time_dyn_gen_compute"),
    ("Wall time computing propagators", "wall_time_prop_compute"),
    ("Wall time computing forward propagation", "wall_time_fwd_prop_compute"),
    ("Wall time computing onward propagation",
     "wall_time_onwd_prop_compute"),
    ("Wall time computing gradient", "wall_time_gradient_compute")]
DLINES = [
    ("Total number of dynamics generator computations",
     "num_dyn_gen_computes"),
    ("Mean number of dynamics generator computations per update",
     "mean_num_dyn_gen_computes_per_update"),
    ("Total number of propagator computations", "num_prop_computes"),
    ("Mean number of propagator computations per update",
     "mean_num_prop_computes_per_update"),
    ("Total number of forward propagation step computations",
     "num_fwd_prop_step_computes"),
    ("Mean number of forward propagation step computations per update",
     "mean_num_fwd_prop_step_computes_per_update"),
    ("Total number of onward propagation step computations",
     "num_onwd_prop_step_computes"),
    ("Mean number of onward propagation step computations per update",
     "mean_num_onwd_prop_step_computes_per_update")]


@st.composite
def obj_case(draw):
    cnt = st.one_of(st.just(0), st.integers(0, 5), st.integers(0, 10**6))
    return dict(dyn=draw(st.booleans()),
                n=draw(st.lists(cnt, min_size=13, max_size=13)),
                t=draw(st.lists(st.one_of(
                    st.just(0.0), st.integers(1, 10**8).map(
                        lambda i: i / 1024.0)), min_size=7, max_size=7)))


def check_obj(c, rec):
    s = qstats.StatsDynTsUpdate() if c["dyn"] else qstats.Stats()
    zero = dict_of(s)
    names = COUNTS + (DCOUNTS if c["dyn"] else [])
    for k in names + TIMES:
        expect(getattr(s, k) == 0, "a new object starts with %s = %r" % (
            k, getattr(s, k)))
    for k, v in zip(names, c["n"]):
        setattr(s, k, v)
    for k, v in zip(TIMES, c["t"]):
        setattr(s, k, v)
    s.wall_time_optim_start = c["t"][5]
    s.wall_time_optim_end = c["t"][5] + c["t"][6] if c["t"][6] else 0.0
    before = {k: getattr(s, k) for k in names + TIMES}
    s.calculate()
    averages(s, "")
    expect({k: getattr(s, k) for k in names + TIMES} == before,
           "calculating the averages changed the counters")
    if s.wall_time_optim_end:
        expect(same(s.wall_time_optim, s.wall_time_optim_end -
                    s.wall_time_optim_start), "wall_time_optim")
    if c["dyn"]:
        for nm, a, b in DMEANS:
            x, y = getattr(s, a), getattr(s, b)
            expect(not y or same(float(getattr(s, nm)), x / y),
                   "%s is %r, but %s = %r, %s = %r" % (
                       nm, getattr(s, nm), a, x, b, y))
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        s.report()
    lines = out.getvalue().splitlines()
    tot = s.wall_time_optim
    for label, nm in LINES + (DLINES if c["dyn"] else []):
        hit = [ln[len(label) + 1:].strip() for ln in lines
               if ln.startswith(label + ":")]
        expect(len(hit) == 1, "report has %d lines %r" % (len(hit), label))
        v = getattr(s, nm)
        if nm.startswith("wall"):
            t = hit[0].split(" (")
            expect(t[0] == str(datetime.timedelta(seconds=v)),
                   "report of %s = %r: %s" % (nm, v, hit[0]))
            if tot > 0 and nm != "wall_time_optim":
                expect(len(t) == 2 and abs(float(t[1].rstrip("%)")) -
                                           100 * v / tot) <= 0.0051 +
                       1e-12 * v / tot, "%s: %r is not this part of %r" % (
                           label, hit[0], tot))
        else:
            expect(hit[0] == str(v), "report of %s = %r: %s" % (
                nm, v, hit[0]))
    rec.label(type(s).__name__)
    if not any(c["n"][:len(names)]):
        rec.trivial()
    s.clear()
    now = dict_of(s)
    expect(now == zero, "clearing leaves %s" % {
        k: now[k] for k in now if now[k] != zero.get(k)})


PARTS = [
    Part("runs", runs.run_case(stats=True), check, quick=3000,
         thorough=30000),
    Part("updates", updates_case(), check_updates, quick=1600,
         thorough=20000),
    Part("objects", obj_case(), check_obj, quick=2000, thorough=20000),
]
