"""Amplitude bounds."""
from hypothesis import strategies as st
import numpy as np

import gens
import qutip_qtrl.pulsegen as pulsegen
import qutip_qtrl.pulseoptim as cpo
from build import operators, optimizer
from common import expect
from core import Part
from ref import Prob
import runs

ID = "C10"
RULE = ("A case is a random control problem with bounds (scalar, zero, "
        "one-sided, infinite, per control list, per parameter) and either an "
        "observed bounded optimisation, or the initial pulse of an entry "
        "point for a random pulse type, scaling and offset, or a basis "
        "function optimisation with guess and ramping pulses. Non-trivial: "
        "some evaluated or returned sample lies on a bound, or (pulses) the "
        "same pulse without bounds would exceed them.")

TOL = 1e-12


def inside(a, lb, ub, what):
    a = np.asarray(a, dtype=float)
    expect(np.isfinite(a).all(), "%s: not finite %s" % (what, a))
    for j in range(a.shape[1]):
        lo = runs.bound(lb, j, -np.inf)
        hi = runs.bound(ub, j, np.inf)
        lo = -np.inf if lo is None else lo
        hi = np.inf if hi is None else hi
        m = TOL * max(1.0, *(abs(x) for x in (lo, hi) if np.isfinite(x)), 1.0)
        expect((a[:, j] >= lo - m).all() and (a[:, j] <= hi + m).all(),
               "%s: control %d has samples %s outside [%s, %s]" % (
                   what, j, a[:, j], lo, hi))


def on_bound(a, lb, ub):
    a = np.asarray(a, dtype=float)
    for j in range(a.shape[1]):
        for b in (runs.bound(lb, j, None), runs.bound(ub, j, None)):
            if b is not None and np.isfinite(b) and \
                    (np.abs(a[:, j] - b) < 1e-9).any():
                return True
    return False


# ---------------------------------------------------------------- (a) runs
def check_runs(c, rec):
    hit = False
    lb, ub = c["lb"], c["ub"]
    for P, opt, i, tc, tau, amps, res, obs in runs.each_run(c, rec):
        w = "run %d " % i
        lb, ub = obs.lb, obs.ub
        for k, e in enumerate(obs.events):
            inside(e.amps, lb, ub, w + "call %d (%s)" % (k, e.kind))
        inside(res.initial_amps, lb, ub, w + "initial amps")
        inside(res.final_amps, lb, ub, w + "final amps")
        hit = hit or any(on_bound(e.amps, lb, ub) for e in obs.events)
    rec.label("active" if hit else "inactive")
    if c["p"].get("units"):
        rec.label("units %d" % c["p"]["units"][0],
                  "units active" if hit else "units inactive")
    if not hit:
        rec.trivial()


# --------------------------------- (a2) bounds that come with the configuration
def check_config(c, rec):
    lb, ub = c["lb"], c["ub"]
    free = dict(c, lb=None, ub=None)
    P, opt = runs.make(free)
    cfg = opt.config
    if lb is not None:
        cfg.amp_lbound = lb
    if ub is not None:
        cfg.amp_ubound = ub
    new = type(opt)(cfg, opt.dynamics)
    for n in ("alg", "method", "approx_grad", "termination_conditions",
              "pulse_generator", "stats"):
        setattr(new, n, getattr(opt, n))
    eq = lambda a, b: (a is None and b is None) or a == b
    expect(eq(new.amp_lbound, lb) and eq(new.amp_ubound, ub), "the optimiser "
           "has bounds %r %r, its configuration %r %r" % (
               new.amp_lbound, new.amp_ubound, lb, ub))
    new.case = P
    runs.start(c, P, new)
    hit = False
    for d in c["runs"]:
        tc = runs.term_conds(d, 1.0)
        res, obs = runs.run(new, tc)
        for k, e in enumerate(obs.events):
            inside(e.amps, lb, ub, "call %d (%s)" % (k, e.kind))
        inside(res.final_amps, lb, ub, "final amps")
        hit = hit or any(on_bound(e.amps, lb, ub) for e in obs.events)
    rec.label(c["method"], "active" if hit else "inactive",
              "zero bound" if 0 in (lb, ub) else "no zero bound")
    if lb is None and ub is None:
        rec.trivial()


# ------------------------------------------------------- (b) initial pulses
PULSES = ["DEF", "RND", "RNDFOURIER", "RNDWAVES", "RNDWALK1", "RNDWALK2",
          "LIN", "ZERO", "SINE", "SQUARE", "SAW", "TRIANGLE", "GAUSSIAN",
          "GAUSSIAN_EDGE"]


@st.composite
def any_bounds(draw, nc):
    """Scalars, lists, zeros, infinities; lower <= upper."""
    def pair():
        k = draw(st.integers(0, 9))
        lo = draw(st.integers(-24, 16)) / 8.0
        hi = lo + draw(st.integers(1, 24)) / 8.0
        if k == 0:
            lo, hi = 0.0, max(abs(hi), 0.125)
        elif k == 1:
            lo, hi = -max(abs(lo), 0.125), 0.0
        elif k == 2:
            hi = None
        elif k == 3:
            lo = None
        elif k == 4:
            hi = np.inf
        elif k == 5:
            lo = -np.inf
        elif k == 6:
            lo, hi = int(np.floor(lo)), int(np.ceil(hi if hi else 0)) + 1
        return lo, hi

    if draw(st.integers(0, 2)):
        return pair()
    ps = [pair() for _ in range(nc)]
    return [p[0] for p in ps], [p[1] for p in ps]


@st.composite
def pulse_case(draw):
    p = draw(gens.problem_cfg(dyns=("UNIT", "UNIT", "GEN_MAT"), max_ts=6,
                              dims=(2,), max_nc=3, min_ts=2))
    lb, ub = draw(any_bounds(p["nc"]))
    return dict(p=p, lb=lb, ub=ub, type=draw(st.sampled_from(PULSES)),
                scaling=draw(st.sampled_from([1.0, 1.0, 0.25, 3.0, -2.0,
                                              0.0])),
                offset=draw(st.sampled_from([0.0, 0.0, 0.5, -1.5, 4.0])),
                seed=draw(st.integers(0, 999)),
                method=draw(st.sampled_from(["DEF", "LBFGSB", "L-BFGS-B"])))


def entry(P, **kw):
    drift, ctrls, ini, tgt = operators(P)
    a = dict(log_level=40, dyn_type=P.dyn, fid_err_targ=-1.0, max_iter=2,
             min_grad=1e-12)
    if P.equal:
        a.update(num_tslots=P.nts, evo_time=P.evo_time)
    else:
        a.update(tau=np.array(P.tau))
    if P.fid in ("PSU", "SU"):
        a["fid_params"] = {"phase_option": P.fid}
    a.update(kw)
    return cpo.optimize_pulse(drift, ctrls, ini, tgt, **a)


def check_pulses(c, rec):
    P = Prob(c["p"])
    kw = dict(init_pulse_type=c["type"], pulse_scaling=c["scaling"],
              pulse_offset=c["offset"], optim_method=c["method"])
    np.random.seed(c["seed"])
    free = entry(P, **kw).initial_amps
    np.random.seed(c["seed"])
    lim = {}
    if c["lb"] is not None:
        lim["amp_lbound"] = c["lb"]
    if c["ub"] is not None:
        lim["amp_ubound"] = c["ub"]
    res = entry(P, **kw, **lim)
    inside(res.initial_amps, c["lb"], c["ub"], "initial pulse")
    inside(res.final_amps, c["lb"], c["ub"], "final pulse")
    rec.label("type:" + c["type"])
    try:
        inside(free, c["lb"], c["ub"], "")
        rec.label("fits")
        # the bounds do not change a pulse that respects them
        expect(np.abs(free - res.initial_amps).max() <= 1e-11 *
               max(1.0, np.abs(free).max()),
               "bounds %s %s changed the initial pulse\n%s\nto\n%s" % (
                   c["lb"], c["ub"], free, res.initial_amps))
        if not on_bound(res.final_amps, c["lb"], c["ub"]):
            rec.trivial()
    except Exception as e:
        if "outside" not in str(e):
            raise
        rec.label("limited")


# ------------------------------------------------------------------ (c) CRAB
def shorter(draw, lb, ub):
    """A list shorter than the controls: its last bound holds for the rest."""
    if isinstance(lb, list) and len(lb) > 1 and draw(st.integers(0, 2)) == 0:
        n = draw(st.integers(1, len(lb) - 1))
        k = draw(st.integers(0, 1))  # 0: both lists, 1: the lower one
        last = lb[n - 1]
        nub = list(ub)
        for j in range(n, len(ub)):
            if k == 0:
                nub[j] = ub[n - 1]
            elif nub[j] is not None and last is not None and not \
                    nub[j] > last:
                nub[j] = last + 1.0
        if not k:
            nub = nub[:n]
        return lb[:n], nub
    return lb, ub


@st.composite
def crab_case(draw):
    c = draw(runs.run_case(algs=("CRAB",), bounded=True, max_runs=2))
    c["lb"], c["ub"] = shorter(draw, *draw(any_bounds(c["p"]["nc"])))
    if draw(st.booleans()):
        c["guess"] = dict(
            type=draw(st.sampled_from(PULSES[1:])),
            scaling=draw(st.sampled_from([1.0, 0.5, 3.0, -2.0])),
            offset=draw(st.sampled_from([0.0, 0.5, -1.5])),
            action=draw(st.sampled_from(["MODULATE", "ADD", "add", None])))
    if draw(st.integers(0, 2)) == 0:
        c["ramp"] = draw(st.sampled_from(["GAUSSIAN_EDGE", "GAUSSIAN",
                                          "SINE"]))
    c["cscale"] = draw(st.sampled_from([1.0, 1.0, 4.0, 0.0, -1.0, 30.0]))
    c["fixf"] = draw(st.booleans())
    return c


def crab_kw(c):
    kw = {}
    if c.get("guess"):
        g = c["guess"]
        kw["init_pulse_type"] = g["type"]
        kw["pulse_scaling"] = g["scaling"]
        kw["pulse_offset"] = g["offset"]
        if g["action"]:
            kw["init_pulse_params"] = {"pulse_action": g["action"]}
    if c.get("ramp"):
        kw["ramping_pulse_type"] = c["ramp"]
    kw["alg_params"] = dict(num_coeffs=c["num_coeffs"],
                            init_coeff_scaling=c["cscale"],
                            fix_frequency=c["fixf"])
    return kw


def check_crab(c, rec):
    hit = False
    lb, ub = c["lb"], c["ub"]
    np.random.seed(c["seed"])
    for P, opt, i, tc, tau, amps, res, obs in runs.each_run(
            c, rec, **crab_kw(c)):
        w = "run %d " % i
        inside(amps, lb, ub, w + "start")
        for k, e in enumerate(obs.events):
            inside(e.amps, lb, ub, w + "call %d (%s)" % (k, e.kind))
        inside(res.final_amps, lb, ub, w + "final amps")
        hit = hit or any(on_bound(e.amps, lb, ub) for e in obs.events)
        for j, pg in enumerate(opt.pulse_generator):
            gp = pg.guess_pulse
            if gp is not None:
                inside(np.array(gp)[:, None], runs.bound(lb, j, None),
                       runs.bound(ub, j, None),
                       w + "guess pulse of control %d" % j)
        # further coefficients, large ones included
        for j, pg in enumerate(opt.pulse_generator):
            n = len(pg.get_optim_var_vals())
            for s in (0.5, 20.0, 1e4):
                pg.set_optim_var_vals(s * (2 * np.random.random(n) - 1))
                a = np.array(pg.gen_pulse())[:, None]
                inside(a, runs.bound(lb, j, None), runs.bound(ub, j, None),
                       w + "pulse of control %d with coefficients of size %g"
                       % (j, s))
        break
    rec.label("guess" if c.get("guess") else "no guess",
              "ramp" if c.get("ramp") else "no ramp",
              "active" if hit else "inactive")


# ------------------------------------- (c2) CRAB: guess pulse of each control
@st.composite
def guess_case(draw):
    p = draw(gens.problem_cfg(dyns=("UNIT",), max_ts=6, dims=(2,), max_nc=3,
                              min_ts=2))
    p["fid"] = "PSU"

    def one():
        k = draw(st.integers(0, 5))
        lo = draw(st.integers(-24, 16)) / 8.0
        hi = lo + draw(st.integers(1, 24)) / 8.0
        return [(lo, hi), (lo, hi), (-np.inf, hi), (lo, np.inf),
                (None, hi), (lo, None)][k]
    ps = [one() for _ in range(p["nc"])]
    same = draw(st.integers(0, 3)) == 0
    lb, ub = (ps[0] if same else
              shorter(draw, [x[0] for x in ps], [x[1] for x in ps]))
    return dict(p=p, lb=lb, ub=ub,
                type=draw(st.sampled_from(PULSES[1:])),
                scaling=draw(st.sampled_from([1.0, 0.5, 3.0, -2.0])),
                offset=draw(st.sampled_from([0.0, 0.5, -1.5, 4.0])),
                action=draw(st.sampled_from(["MODULATE", "ADD", None])),
                ramp=draw(st.sampled_from([None, None, "GAUSSIAN_EDGE"])),
                seed=draw(st.integers(0, 999)))


def check_guess(c, rec):
    P = Prob(c["p"])
    lb, ub = c["lb"], c["ub"]
    kw = dict(alg="CRAB", optim_method="FMIN", amp_lbound=lb, amp_ubound=ub,
              init_pulse_type=c["type"], pulse_scaling=c["scaling"],
              pulse_offset=c["offset"], alg_params=dict(num_coeffs=2))
    if c["action"]:
        kw["init_pulse_params"] = {"pulse_action": c["action"]}
    if c["ramp"]:
        kw["ramping_pulse_type"] = c["ramp"]
    np.random.seed(c["seed"])
    opt = optimizer(P, **kw)
    pgs = opt.pulse_generator
    expect(len(pgs) == P.nc, "%d pulse generators for %d controls"
           % (len(pgs), P.nc))
    random = c["type"].startswith("RND")
    for j, pg in enumerate(pgs):
        lo, hi = runs.bound(lb, j, None), runs.bound(ub, j, None)
        g = np.array(pg.guess_pulse, dtype=float)
        expect(g.shape == (P.nts,), "guess pulse of %s slots" % (g.shape,))
        inside(g[:, None], lo, hi, "guess pulse of control %d" % j)
        if not random:
            one = pulsegen.create_pulse_gen(c["type"], opt.dynamics)
            one.scaling, one.offset = c["scaling"], c["offset"]
            free = np.array(one.gen_pulse())
            two = pulsegen.create_pulse_gen(c["type"], opt.dynamics)
            two.scaling, two.offset = c["scaling"], c["offset"]
            two.lbound, two.ubound = lo, hi
            want = np.array(two.gen_pulse())
            expect(np.abs(g - want).max() <= 1e-9 * (1 + np.abs(want).max()),
                   "guess pulse of control %d\n%s\nis not the pulse of its "
                   "type within its bounds\n%s" % (j, g, want))
            rec.label("limited" if np.abs(free - want).max() > 1e-9
                      else "fits")
        if c["action"]:
            expect(pg.guess_pulse_action == c["action"], "guess pulse action "
                   "of control %d is %r" % (j, pg.guess_pulse_action))
        pg.init_pulse()
        inside(np.array(pg.gen_pulse())[:, None], lo, hi,
               "pulse of control %d" % j)
    if P.nc < 2:
        rec.trivial()
    rec.label("controls %d" % P.nc, "type:" + c["type"])


# ----------------------------------------------- (d) bounds of the parameters
@st.composite
def direct_case(draw):
    c = draw(runs.run_case(algs=("GRAPE", "GRAPE", "CRAB"), bounded=False,
                           methods=["FMIN_L_BFGS_B", "LBFGSB", "L-BFGS-B",
                                    "SLSQP", "Nelder-Mead", "Powell"],
                           max_runs=2))
    if c["alg"] == "CRAB" and c["method"] in ("FMIN_L_BFGS_B", "LBFGSB"):
        c["method"] = "L-BFGS-B"
    n = 24
    c["bnd"] = []
    for _ in range(n):
        k = draw(st.integers(0, 4))
        lo = draw(st.integers(-8, 8)) / 8.0
        hi = lo + draw(st.integers(1, 8)) / 8.0
        c["bnd"].append([None if k == 0 else lo, None if k == 1 else hi])
    # amplitude bounds that the direct ones replace
    if draw(st.booleans()):
        c["lb"], c["ub"] = -0.125, 0.125
    return c


def check_direct(c, rec):
    lb, ub = c["lb"], c["ub"]
    c = dict(c, lb=None, ub=None)
    P, opt = runs.make(c)
    amps = runs.start(c, P, opt)
    crab = c["alg"] == "CRAB"
    if crab:
        n = sum(len(pg.get_optim_var_vals()) for pg in opt.pulse_generator)
    else:
        n = amps.size
    b = [tuple(x) for x in c["bnd"][:n]]
    while len(b) < n:
        b.append((-0.5, 0.5))
    lo = np.array([-np.inf if x[0] is None else x[0] for x in b])
    hi = np.array([np.inf if x[1] is None else x[1] for x in b])
    if not crab:
        opt.amp_lbound, opt.amp_ubound = lb, ub
        amps = np.clip(amps.ravel(), lo, hi).reshape(amps.shape)
        opt.dynamics.initialize_controls(amps.copy())
    else:
        off = 0
        for j, pg in enumerate(opt.pulse_generator):
            v = np.array(pg.get_optim_var_vals())
            pg.set_optim_var_vals(np.clip(v, lo[off:off + v.size],
                                          hi[off:off + v.size]))
            amps[:, j] = pg.gen_pulse()
            off += v.size
        opt.dynamics.initialize_controls(amps.copy())
    opt.bounds = list(b)
    hit = False
    for i, d in enumerate(c["runs"]):
        tc = runs.term_conds(d, 1.0)
        res, obs = runs.run(opt, tc)
        for k, e in enumerate(obs.events):
            if e.x is None or e.kind == "it":
                continue
            x = np.ravel(e.x)
            m = TOL * 10
            expect(((x >= lo - m) & (x <= hi + m)).all(),
                   "run %d call %d (%s): variables %s outside\n%s\n%s" % (
                       i, k, e.kind, x, lo, hi))
            hit = hit or (np.abs(x - lo).min() < 1e-9 or
                          np.abs(x - hi).min() < 1e-9)
            if not crab:
                expect(np.array_equal(x, e.amps.ravel()),
                       "run %d call %d: the amplitudes are not the variables"
                       % (i, k))
        expect(list(opt.bounds) == list(b), "run %d changed the bounds set"
               % i)
    rec.label(c["alg"] + ":" + c["method"], "active" if hit else "inactive")
    if not hit:
        rec.trivial()


PARTS = [
    Part("runs", runs.run_case(algs=("GRAPE",), bounded=True, big=200, max_ts=5,
                               units=3, rebound=True),
         check_runs, quick=5000, thorough=50000),
    Part("config", runs.run_case(algs=("GRAPE",), bounded=True, big=200, max_ts=3,
                                 max_runs=2),
         check_config, quick=800, thorough=8000),
    Part("initial", pulse_case(), check_pulses, quick=3000, thorough=30000),
    Part("crab", crab_case(), check_crab, quick=1200, thorough=12000),
    Part("guess", guess_case(), check_guess, quick=3000, thorough=30000),
    Part("direct", direct_case(), check_direct, quick=1400, thorough=14000),
]
