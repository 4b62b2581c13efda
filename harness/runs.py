"""Optimisation runs observed from outside.

A run case:  p (problem), alg, method, approx, stats, lb, ub, bounds, seed,
num_coeffs, runs: [ {tc..., amps?} ].
The observation is a list of events in the order in which the minimiser called
the public wrappers of the optimiser.
"""
import contextlib
import time

from hypothesis import strategies as st
import numpy as np
import scipy.optimize as spopt

import gens
import qutip_qtrl.errors as errors
import qutip_qtrl.optimizer as qopt
import qutip_qtrl.termcond as termcond
from build import optimizer
from core import Skip, Violation
from ref import Prob, evolve, fid_err, gradient

GRAD_METHODS = ["FMIN_L_BFGS_B", "LBFGSB", "FMIN_BFGS", "BFGS", "CG",
                "L-BFGS-B", "SLSQP"]
BOUNDED = ["FMIN_L_BFGS_B", "LBFGSB", "L-BFGS-B", "SLSQP"]
DIRECT = ["Nelder-Mead", "Powell"]
CRAB_METHODS = ["FMIN", "FMIN", "Nelder-Mead", "Powell", "BFGS", "L-BFGS-B"]


class Event:
    __slots__ = ("kind", "amps", "out", "exc", "t0", "t1", "gnorm", "err",
                 "x")

    def __init__(self, kind):
        self.kind, self.out, self.exc = kind, None, None
        self.amps = self.gnorm = self.err = self.x = None


class Obs:
    """What was seen of one run."""

    def __init__(self):
        self.events = []
        self.native = None      # (function name, native result)
        self.t_call = self.t_ret = None
        self.exc = None

    def of(self, kind):
        return [e for e in self.events if e.kind == kind]


def _tee(opt, obs, delay):
    """Wrap the public callbacks of the optimiser instance."""
    for kind, name in (("f", "fid_err_func_wrapper"),
                       ("g", "fid_err_grad_wrapper"),
                       ("it", "iter_step_callback_func")):
        orig = getattr(type(opt), name).__get__(opt)

        def wrapper(*args, kind=kind, orig=orig, **kw):
            e = Event(kind)
            e.x = np.array(args[0], dtype=float) if args else None
            obs.events.append(e)
            if delay and kind == "it":
                time.sleep(delay)
            e.t0 = time.perf_counter()
            ok = False
            try:
                out = orig(*args, **kw)
                e.out = np.array(out) if kind == "g" else out
                ok = True
                return out
            except errors.OptimizationTerminate as x:
                e.exc = x
                ok = True
                raise
            finally:
                e.t1 = time.perf_counter()
                e.amps = np.array(opt.dynamics.ctrl_amps)
                fc = opt.dynamics.fid_computer
                # (any other exception goes on to the caller as it is)
                if ok and kind == "f":
                    e.err = (float(e.out) if e.exc is None
                             else float(fc.get_fid_err()))
                elif ok and kind == "g":
                    e.gnorm = float(fc.grad_norm)

        setattr(opt, name, wrapper)


@contextlib.contextmanager
def _spy(obs):
    """Record what the minimiser of scipy itself reported."""
    saved = []

    def wrap(mod, name):
        f = getattr(mod, name, None)
        if f is None:
            return

        def g(*a, **kw):
            r = f(*a, **kw)
            obs.native = (name, r)
            return r

        saved.append((mod, name, f))
        setattr(mod, name, g)

    for n in ("minimize", "fmin_bfgs", "fmin", "fmin_l_bfgs_b"):
        wrap(spopt, n)
    wrap(qopt, "fmin_l_bfgs_b")
    try:
        yield
    finally:
        for mod, name, f in reversed(saved):
            setattr(mod, name, f)


def overflow(opt, obs, raised=True):
    """A step of the minimiser so large that the evolution of an unstable
    system is not finite?"""
    P = getattr(opt, "case", None)
    if P is None or P.dyn == "UNIT":
        return False
    seen = [e.amps for e in obs.events]
    seen.append(np.array(opt.dynamics.ctrl_amps))
    fin = [a for a in seen if np.isfinite(a).all()]
    if len(fin) == len(seen) and not raised:
        return False
    # (squares of the gradient overflow first: the minimiser then proposes a
    # point that is not finite)
    limit = 200 if len(fin) == len(seen) else 100
    return max([growth(P, P.tau, a) for a in fin], default=0) > limit


def run(opt, tc=None, delay=0):
    obs = Obs()
    _tee(opt, obs, delay)
    with _spy(obs):
        obs.t_call = time.perf_counter()
        try:
            res = opt.run_optimization(tc) if tc is not None \
                else opt.run_optimization()
        except (ValueError, np.linalg.LinAlgError, OverflowError) as x:
            if overflow(opt, obs):
                raise Skip("overflow") from x
            raise
        obs.t_ret = time.perf_counter()
    if overflow(opt, obs, False):
        raise Skip("overflow")
    return res, obs


def make(c, **kw):
    P = Prob(c["p"])
    a = dict(alg=c["alg"], optim_method=c["method"],
             gen_stats=bool(c.get("stats")))
    if c.get("lb") is not None:
        a["amp_lbound"] = c["lb"]
    if c.get("ub") is not None:
        a["amp_ubound"] = c["ub"]
    if c.get("approx"):
        a["optim_params"] = {"approx_grad": True}
    if c["alg"].upper() == "CRAB":
        a["alg_params"] = dict(num_coeffs=c.get("num_coeffs", 2))
    a.update(kw)
    opt = optimizer(P, **a)
    opt.case = P
    return P, opt


def start(c, P, opt, amps=None):
    """Give the run its initial pulse; returns the initial amplitudes."""
    dyn = opt.dynamics
    if c["alg"].upper() == "CRAB":
        np.random.seed(c["seed"])
        a = np.empty((P.nts, P.nc))
        for j, pg in enumerate(opt.pulse_generator):
            pg.init_pulse()
            a[:, j] = pg.gen_pulse()
    else:
        a = np.array(P.amps if amps is None else
                     np.array(amps, dtype=float) * P.uamp)
        a = clip(c, a)
    dyn.initialize_controls(a.copy())
    return a


def bound(b, j, default):
    if b is None:
        return default
    if isinstance(b, list):
        return b[min(j, len(b) - 1)]  # CRAB: the last one holds for the rest
    return b


def clip(c, a):
    a = np.array(a, dtype=float)
    for j in range(a.shape[1]):
        lo = bound(c.get("lb"), j, -np.inf)
        hi = bound(c.get("ub"), j, np.inf)
        a[:, j] = np.clip(a[:, j], lo, hi)
    return a


def term_conds(d, err0, tc=None):
    """Termination conditions of a run; tc: those of the run before, reused."""
    if tc is None:
        tc = termcond.TerminationConditions()
        own = False
    else:
        own = tc.by_goal
        new = termcond.TerminationConditions()
        tc.max_fid_func_calls = new.max_fid_func_calls
        tc.max_wall_time = new.max_wall_time
    t = d.get("targ", -1.0)
    if isinstance(t, dict):
        t = err0 * (1 + t["rel"]) if err0 is not None else -1.0
    if d.get("goal") is not None:
        if not own:
            tc.fid_err_targ = None
        tc.fid_goal = d["goal"]
        tc.target = abs(1 - d["goal"])
    else:
        tc.fid_err_targ = tc.target = t
    tc.by_goal = d.get("goal") is not None
    g = d.get("min_grad", 1e-10)
    tc.min_gradient_norm = 1e-3 if isinstance(g, dict) else g
    tc.max_iterations = d.get("max_iter", 10)
    if d.get("max_f"):
        tc.max_fid_func_calls = d["max_f"]
    if d.get("wall") is not None:
        tc.max_wall_time = d["wall"]
    return tc


def reference(P, tau, amps):
    ev = evolve(P, tau, np.asarray(amps))
    return ev, fid_err(P, ev["full"])


def growth(P, tau, amps):
    return sum(np.abs(P.H(k, amps)).sum(axis=0).max() * tau[k]
               for k in range(P.nts))


def sane(P, tau, amps):
    """Is the evolution of these amplitudes computable with full precision?"""
    amps = np.asarray(amps)
    if not np.isfinite(amps).all():
        return False
    return growth(P, tau, amps) <= (300.0 if P.dyn == "UNIT" else 12.0)


# ------------------------------------------------------------- strategies
@st.composite
def tc_strat(draw):
    d = {}
    k = draw(st.integers(0, 9))
    if k < 3:
        d["targ"] = draw(st.sampled_from(
            [-1.0, 0.0, 1e-12, 1e-6, 1e-3, 1e-2, 0.1, 0.3, 0.6, 1.0, 5.0]))
    elif k < 5:
        d["targ"] = {"rel": draw(st.sampled_from(
            [0.0, -1e-9, 1e-9, -0.01, -0.3, -0.9]))}
    elif k == 5:
        d["goal"] = draw(st.sampled_from([0.5, 0.9, 0.99, 1.0]))
    else:
        d["targ"] = -1.0
    d["min_grad"] = draw(st.sampled_from(
        [1e-30, 1e-10, 1e-10, 1e-6, 1e-3, 1e-2, 0.1, 0.5, 5.0,
         {"rel": 0.9}, {"rel": 0.5}, {"rel": 0.1}, {"rel": 1.1}]))
    d["max_iter"] = draw(st.one_of(st.integers(1, 6), st.integers(1, 25)))
    if draw(st.integers(0, 2)) == 0:
        d["max_f"] = draw(st.integers(1, 20))
    if draw(st.integers(0, 7)) == 0:
        d["wall"] = draw(st.sampled_from([0.0, -1.0, 1e6]))
    return d


@st.composite
def bounds_strat(draw, nc):
    k = draw(st.sampled_from(["none", "none", "both", "both", "lo", "hi",
                              "list", "zero"]))
    if k == "none":
        return None, None
    lo = draw(st.integers(-16, 8)) / 8.0
    hi = lo + draw(st.integers(1, 16)) / 8.0
    if k == "both":
        return lo, hi
    if k == "lo":
        return lo, None
    if k == "hi":
        return None, hi
    if k == "zero":
        return draw(st.sampled_from([(0.0, hi + 2), (-1.0, 0.0), (0, 2),
                                     (0.0, None), (None, 0.0)]))
    los = [draw(st.integers(-16, 8)) / 8.0 for _ in range(nc)]
    his = [x + draw(st.integers(1, 16)) / 8.0 for x in los]
    return los, his


@st.composite
def run_case(draw, algs=("GRAPE", "GRAPE", "GRAPE", "CRAB"), max_runs=3,
             bounded=None, methods=None, max_ts=4, stats=None, max_nc=2,
             tcs=None, units=7, big=50, rebound=False,
             regrid=True):
    p = draw(gens.problem_cfg(dyns=("UNIT", "UNIT", "UNIT", "GEN_MAT",
                                    "SYMPL"),
                              max_ts=max_ts, dims=(2, 2, 3), max_nc=max_nc,
                              big=big, big_kw=dict(
                                  max_ts=64, max_nc=5,
                                  kinds=("slots", "slots", "ctrls"))))
    if p["fid"] == "TD" and draw(st.integers(0, 7)) == 0:
        p["fid"], p["prop"] = "TDA", "APPROX"
    alg = draw(st.sampled_from(list(algs)))
    c = dict(p=p, alg=alg, seed=draw(st.integers(0, 999)),
             stats=draw(st.booleans()) if stats is None else stats)
    if alg == "CRAB":
        if p["fid"] == "TD" and p["prop"] == "DEF":
            # CRAB's default propagator computer has no exact gradient, which
            # the trace difference computer insists on when it is selected
            p["prop"] = "FRECHET"
        c["method"] = draw(st.sampled_from(methods or CRAB_METHODS))
        c["num_coeffs"] = draw(st.integers(1, 3))
        c["lb"] = c["ub"] = None
        if bounded or (bounded is None and draw(st.integers(0, 3)) == 0):
            c["lb"], c["ub"] = draw(bounds_strat(p["nc"]))
    else:
        m = list(methods or GRAD_METHODS + ["FMIN_L_BFGS_B"] * 3 + DIRECT)
        if bounded:
            m = [x for x in m if x in BOUNDED]
        if p.get("big"):  # (the others take an evaluation per variable)
            m = [x for x in m if x not in DIRECT + ["SLSQP"]] or m
        c["method"] = draw(st.sampled_from(m))
        c["approx"] = (c["method"] in GRAD_METHODS and not p.get("big") and
                       draw(st.integers(0, 7)) == 0)
        c["lb"] = c["ub"] = None
        if c["method"] in BOUNDED and bounded is not False:
            c["lb"], c["ub"] = draw(bounds_strat(p["nc"]))
    runs = []
    nts = p["nts"]
    for i in range(draw(st.integers(1, max_runs))):
        d = draw(tcs if tcs is not None else tc_strat())
        if i and draw(st.integers(0, 2)) == 0:
            d["reuse"] = draw(st.sampled_from(["pass", "none"]))
        if i and draw(st.booleans()) and alg != "CRAB":
            if regrid and draw(st.integers(0, 2)) == 0:
                n = p["nts"] if p["td"] or p["tc"] else draw(
                    st.integers(1, max_ts + 1))
                nts = n
                d["grid"] = dict(nts=n, tau=draw(gens.taus(n)),
                                 amps=draw(gens.amplitudes(n, p["nc"])))
            else:
                d["amps"] = draw(gens.amplitudes(nts, p["nc"]))
            if rebound and draw(st.booleans()):
                d["bounds"] = list(draw(bounds_strat(p["nc"])))
        if c["method"] in DIRECT:  # (thousands of calls per iteration)
            d["max_f"] = d.get("max_f") or 400
        if p.get("big") and alg == "CRAB":
            d["max_f"] = min(d.get("max_f") or 60, 60)
        runs.append(d)
    if p.get("big") and runs[0] and draw(st.booleans()):
        # many variables: limits close to the values of the initial pulse
        runs[0].pop("goal", None)
        runs[0].update(targ={"rel": -0.1},
                       min_grad={"rel": draw(st.sampled_from([0.8, 1.1]))})
    c["runs"] = runs
    if units and alg != "CRAB" and not c["approx"] and p["fid"] != "TDA" \
            and draw(st.integers(0, units)) == 0:
        # amplitudes and times in other units
        ka = draw(st.sampled_from([-10, 6, 12, 20]))
        p["units"] = [ka, draw(st.sampled_from([0, -6, 10, 20]))]
        gens.no_tiny(p)
        sc = lambda b: ([x * 2.0 ** ka for x in b] if isinstance(b, list) else
                        b if b is None else b * 2.0 ** ka)
        c["lb"], c["ub"] = sc(c["lb"]), sc(c["ub"])
        for d in runs:
            if d.get("bounds"):
                d["bounds"] = [sc(b) for b in d["bounds"]]
    return c


def restart(c, P, opt, d):
    """Initialise the controls for the next run, perhaps on another grid."""
    if d.get("grid") is None:
        return P, start(c, P, opt, d["amps"])
    P = Prob(dict(P.p, **d["grid"]))
    if not P.equal:
        opt.dynamics.tau = np.array(P.tau)
    else:
        opt.dynamics.num_tslots = P.nts
        opt.dynamics.evo_time = P.evo_time
    opt.case = P
    return P, start(c, P, opt)


def fresh(c, i):
    """Were the controls initialised before run i?"""
    d = c["runs"][i]
    return (i == 0 or d.get("amps") is not None or
            d.get("grid") is not None)


def each_run(c, rec, **kw):
    """Yields (P, opt, index, tc, amps at start, result, observation)."""
    P, opt = make(c, **kw)
    amps = start(c, P, opt)
    rec.label(c["alg"] + ":" + c["method"] + (":approx" if c.get("approx")
                                              else ""))
    for i, d in enumerate(c["runs"]):
        if i:
            if d.get("bounds") is not None:
                # other bounds for the later runs
                c = dict(c, lb=d["bounds"][0], ub=d["bounds"][1])
                opt.amp_lbound, opt.amp_ubound = d["bounds"]
                rec.label("bounds changed")
            if d.get("grid") is not None or d.get("amps") is not None:
                P, amps = restart(c, P, opt, d)
                if d.get("grid") is not None:
                    rec.label("grid changed")
            else:
                amps = np.array(opt.dynamics.ctrl_amps)
        tau = np.array(opt.dynamics.tau, dtype=float)
        err0 = float(opt.dynamics.fid_computer.get_fid_err()) \
            if isinstance(d.get("targ"), dict) else None
        how = d.get("reuse") if i else None
        tc = term_conds(d, err0, tc if how else None)
        if isinstance(d.get("min_grad"), dict) and P.fid != "TDA" and \
                c["alg"] != "CRAB" and sane(P, tau, amps):
            g = gradient(P, evolve(P, tau, amps, grads=True))
            if g is not None and np.isfinite(g).all() and g.any():
                tc.min_gradient_norm = d["min_grad"]["rel"] * float(
                    np.sqrt((g ** 2).sum()))
                rec.label("relative gradient minimum")
        if how:
            rec.label("conditions reused")
        res, obs = run(opt, None if how == "none" else tc, d.get("delay", 0))
        rec.label("end:" + (type(obs.events[-1].exc).__name__
                            if obs.events and obs.events[-1].exc is not None
                            else "minimiser"))
        obs.lb, obs.ub = c.get("lb"), c.get("ub")
        yield P, opt, i, tc, tau, amps, res, obs
