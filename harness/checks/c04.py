"""Configuration options must not change results."""
import copy
import logging

from hypothesis import strategies as st
import numpy as np

import gens
import qutip_qtrl.errors as errors
import ref
import runs
from build import arr, dynamics
from common import close, expect, grad_tol, scale_of
from core import Part, Violation
from ref import Prob, evolve

ID = "C04"
RULE = ("A case is a random control problem with two configurations "
        "(memory level, operator type, caches, propagator method, sparse "
        "decomposition, storage format, constant operators repeated per slot, "
        "statistics, dumping, unitarity checks, log level). Non-trivial: the "
        "two configurations differ and the reference gradient has an entry "
        "above 1e-6. Part runs: a whole optimisation done twice, with "
        "differing log levels, statistics, dumping, unitarity checks and step "
        "recording; non-trivial if these differ and the pulse changed.")


def spread(p):
    """The same problem with constant operators repeated for every slot."""
    q = copy.deepcopy(p)
    if not q["td"]:
        q["td"] = True
        q["drift"] = [q["drift"][0]] * q["nts"]
    if not q["tc"]:
        q["tc"] = True
        q["ctrls"] = [q["ctrls"][0]] * q["nts"]
    return q


def variant(p, v):
    q = copy.deepcopy(p)
    q["cfg"] = dict(v["cfg"])
    q["prop"] = v["prop"]
    q["csr"] = v["csr"]
    if v["spread"]:
        q = spread(q)
    return q


def evaluate(p, v):
    q = variant(p, v)
    P = Prob(q)
    kw = {}
    if v["stats"]:
        kw["gen_stats"] = True
    from build import optimizer

    if v.get("debug"):
        kw["log_level"] = v["debug"]
    opt = optimizer(P, **kw)
    dyn = opt.dynamics
    if v["stats"]:
        from qutip_qtrl import stats

        s = stats.Stats()
        opt.stats = s
        dyn.stats = s
    if v["cfg"].get("dump"):
        dyn.dumping = v["cfg"]["dump"]
    if v["cfg"].get("ucl"):
        dyn.unitarity_check_level = v["cfg"]["ucl"]
    dyn.initialize_controls(np.array(P.amps))
    if v.get("grad_first"):
        g = np.array(dyn.fid_computer.get_fid_err_gradient())
        e = float(dyn.fid_computer.get_fid_err())
    else:
        e = float(dyn.fid_computer.get_fid_err())
        g = np.array(dyn.fid_computer.get_fid_err_gradient())
    dyn.compute_evolution()
    full = arr(dyn.full_evo).copy()
    return P, dyn, e, g, full


def check(p, rec):
    Pa, da, ea, ga, fa = evaluate(p, p["A"])
    Pb, db, eb, gb, fb = evaluate(p, p["B"])
    tau = np.array(da.tau, dtype=float)
    expect(np.array_equal(tau, np.array(db.tau, dtype=float)),
           "slot durations differ between configurations")
    ev = evolve(Pa, tau, grads=True)
    tol = (2 * grad_tol(Pa, ev, tau) + 2 * grad_tol(Pb, ev, tau))
    for k in ("mem", "dtype", "cpd", "cpg", "cea", "sed", "ucl", "dump"):
        if p["A"]["cfg"].get(k) != p["B"]["cfg"].get(k):
            rec.label("differ in " + k)
        for v in "AB":
            if p[v]["cfg"].get(k) is not None:
                rec.label("%s=%s" % (k, p[v]["cfg"].get(k)))
    for k in ("prop", "csr", "spread", "stats"):
        if p["A"][k] != p["B"][k]:
            rec.label("differ in " + k)
    rec.label(p["dyn"], "fid=" + p["fid"])
    s = scale_of(ev)
    close(fb, fa, s, "full evolution", 1e-8)
    etol = 1e-8 * max(1.0, s * s)
    if not abs(ea - eb) <= etol:
        raise Violation("fidelity errors differ: %r and %r" % (ea, eb))
    want = ref.gradient(Pa, ev)
    if want is None or (p["fid"] in ("PSU", "SU") and
                        ref.fid_err(Pa, ev["full"]) < 1e-9):
        rec.label("not differentiable")
        rec.trivial()
        return
    if p["fid"] == "PSU":
        tol *= max(1.0, 1e-3 / abs(ref.overlap(Pa, ev["full"])))
    d = np.abs(ga - gb).max()
    if not d <= tol:
        raise Violation("gradients differ by %g (tolerance %g)\n%s\n%s"
                        % (d, tol, ga, gb))
    if np.abs(want).max() * Pa.uamp < 1e-6 or p["A"] == p["B"]:
        rec.trivial()


@st.composite
def strat_v(draw, dyn, n, fid):
    c = draw(gens.config())
    c["mem"] = draw(st.sampled_from([0, 0, 1, 2]))
    props = gens.EXACT_PROPS[dyn]
    prop = draw(st.sampled_from(props + (["DIAG"] * 2 if dyn == "UNIT"
                                         else [])))
    if n <= 2:
        c["sed"] = False if c["mem"] == 2 else draw(
            st.sampled_from([None, False]))
    else:
        c["sed"] = draw(st.sampled_from([None, None, True, False]))
    if dyn == "UNIT" and prop in ("DEF", "DIAG"):
        c["ucl"] = draw(st.sampled_from([None, None, 1, 2]))
    c["dump"] = draw(st.sampled_from([None, None, "SUMMARY", "FULL"]))
    return dict(cfg=c, prop=prop, csr=draw(gens.STORE),
                spread=draw(st.integers(0, 2)) == 0,
                stats=draw(st.booleans()),
                grad_first=draw(st.booleans()),
                debug=draw(st.sampled_from([None] * 12 + [6, 8, 10, 20])))


@st.composite
def strat(draw):
    p = draw(gens.problem(open_fid=True, units=True,
                          dyns=("UNIT", "UNIT", "GEN_MAT", "SYMPL"),
                          max_ts=4, dims=(2, 3, 4, 4, 5), big=60, big_kw=dict(huge=True)))
    p["A"] = draw(strat_v(p["dyn"], p["n"], p["fid"]))
    p["B"] = draw(strat_v(p["dyn"], p["n"], p["fid"]))
    return p


# ------------------------------------------------------- whole optimisations
LEVELS = [None, None, 40, 20, 10, 8, 6, 1]


def optimise(c, v):
    """The same run with observing features switched on or off."""
    kw = dict(gen_stats=bool(v["stats"]))
    if v["log"] is not None:
        kw["log_level"] = v["log"]
    P, opt = runs.make(c, **kw)
    dyn = opt.dynamics
    if v["dyn_dump"]:
        dyn.dumping = v["dyn_dump"]
    if v["opt_dump"]:
        opt.dumping = v["opt_dump"]
    if v["ucl"] and not (P.dyn == "UNIT" and
                         P.p["prop"] not in ("DEF", "DIAG")):
        dyn.unitarity_check_level = v["ucl"]
    if v["steps"]:
        opt.record_iteration_steps = True
    amps = runs.start(c, P, opt)
    out = []
    for i, d in enumerate(c["runs"]):
        if i and runs.fresh(c, i):
            P, amps = runs.restart(c, P, opt, d)
        tc = runs.term_conds(d, float(dyn.fid_computer.get_fid_err())
                             if isinstance(d.get("targ"), dict) else None)
        res, obs = runs.run(opt, tc)
        out.append((res, obs))
    return P, opt, out


SAME = ["initial_fid_err", "fid_err", "goal_achieved", "grad_norm_final",
        "num_iter", "num_fid_func_calls", "termination_reason",
        "grad_norm_min_reached", "max_iter_exceeded",
        "max_fid_func_exceeded", "wall_time_limit_exceeded"]


def check_runs(c, rec):
    """Nothing that only observes a run changes it."""
    c = one_form(c)
    names = [n for n in logging.root.manager.loggerDict
             if n.startswith("qutip_qtrl")]
    levels = {n: logging.getLogger(n).level for n in names}
    sink = logging.NullHandler()
    handlers = {}
    for n in names:
        lg = logging.getLogger(n)
        handlers[n] = (lg.handlers, lg.propagate)
        lg.handlers, lg.propagate = [sink], False
    try:
        for k in range(4):
            try:
                Pa, oa, ra = optimise(c, c["A"])
                Pb, ob, rb = optimise(c, c["B"])
                moved = same_runs(c, ra, rb, rec)
                break
            except Violation:
                # (rounding may depend on the alignment of memory)
                if k == 3:
                    raise
    finally:
        for n in names:
            lg = logging.getLogger(n)
            lg.handlers, lg.propagate = handlers[n]
            lg.setLevel(levels[n])
    rec.label(c["alg"] + ":" + c["method"])
    for k in c["A"]:
        if c["A"][k] != c["B"][k]:
            rec.label("differ in " + k)
    if not moved or c["A"] == c["B"]:
        rec.trivial()


def same_runs(c, ra, rb, rec):
    moved = False
    for i, ((a, fa), (b, fb)) in enumerate(zip(ra, rb)):
        w = "run %d: " % i
        if (fa.events and isinstance(fa.events[-1].exc, errors.MaxWallTimeTerminate)
                or fb.events and isinstance(
                    fb.events[-1].exc, errors.MaxWallTimeTerminate)) and \
                c["runs"][i].get("wall", 0) > 0:
            rec.label("out of time")
            break
        for k in SAME:
            x, y = getattr(a, k), getattr(b, k)
            expect(x == y or (isinstance(x, float) and x != x and y != y),
                   w + "%s is %r with %s\nand %r with %s"
                   % (k, x, c["A"], y, c["B"]))
        for k in ("initial_amps", "final_amps", "time"):
            x, y = getattr(a, k), getattr(b, k)
            expect(np.array_equal(x, y, equal_nan=True), w +
                   "%s\n%s\nwith %s, and\n%s\nwith %s"
                   % (k, x, c["A"], y, c["B"]))
        for k in ("evo_full_initial", "evo_full_final"):
            expect(np.array_equal(arr(getattr(a, k)), arr(getattr(b, k)),
                                  equal_nan=True),
                   w + k + " differs between the two runs")
        for r, v in ((a, c["A"]), (b, c["B"])):
            expect((r.stats is not None) == bool(v["stats"]),
                   w + "result.stats is %r with statistics %s"
                   % (r.stats, v["stats"]))
        # the same calls in the same order
        expect([e.kind for e in fa.events] == [e.kind for e in fb.events],
               w + "different sequences of calls")
        for x, y in zip(fa.events, fb.events):
            expect(np.array_equal(x.amps, y.amps, equal_nan=True),
                   w + "a call was made at other amplitudes")
        if not np.array_equal(a.final_amps, a.initial_amps):
            moved = True
    return moved


obs_strat = st.fixed_dictionaries(dict(
    log=st.sampled_from(LEVELS), stats=st.booleans(),
    dyn_dump=st.sampled_from([None, None, "SUMMARY", "FULL"]),
    opt_dump=st.sampled_from([None, None, "SUMMARY", "FULL"]),
    ucl=st.sampled_from([0, 0, 1, 2]), steps=st.booleans()))


@st.composite
def strat_runs(draw):
    c = draw(runs.run_case(max_runs=2))
    c["A"] = draw(obs_strat)
    c["B"] = draw(obs_strat)
    return one_form(c)


def one_form(c):
    """Printing a Qobj stores whether it is Hermitian to within a tolerance,
    which later spares taking its adjoint: the trace difference is printed at
    level 8 and below, for both runs or for neither."""
    low = [k for k in "AB" if c[k]["log"] is not None and c[k]["log"] <= 8]
    if c["p"]["fid"].startswith("TD") and len(low) == 1:
        c[low[0]]["log"] = 10
    return c


PARTS = [Part("pairs", strat(), check, 5000, 60000),
         Part("runs", strat_runs(), check_runs, 800, 10000)]
