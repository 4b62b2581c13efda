"""Entry points and forwarding of their parameters."""
import contextlib
import copy
import inspect
import io
import warnings

from hypothesis import strategies as st
import numpy as np

import gens
import runs
from build import arr, operators, optimizer
from common import expect
from core import Part, Violation
import qutip_qtrl.dynamics as dynamics
import qutip_qtrl.errors as errors
import qutip_qtrl.fidcomp as fidcomp
import qutip_qtrl.optimizer as qopt
import qutip_qtrl.propcomp as propcomp
import qutip_qtrl.pulsegen as pulsegen
import qutip_qtrl.pulseoptim as cpo
import qutip_qtrl.stats as qstats
import qutip_qtrl.tslotcomp as tslotcomp
from ref import Prob

ID = "C14"
RULE = ("A case is a random control problem, an option set and a random "
        "seed; the same problem is run through several entry points (general, "
        "unitary, factory with manual initialisation and run, deprecated "
        "spellings), or the objects configured by an entry point are compared "
        "with the options given, or the arguments with which the minimiser "
        "of scipy is called with the method parameters given. Non-trivial: "
        "the run changed the amplitudes (agreement), at least eight options "
        "given (forwarding), some method parameter given (minimisers).")


# ------------------------------------------------------------ option building
def base_args(c, P):
    """Positional problem arguments and the timing options."""
    drift, ctrls, ini, tgt = operators(P)
    kw = dict(log_level=c.get("log", 40))
    if P.equal:
        kw.update(num_tslots=P.nts, evo_time=P.evo_time)
    else:
        kw["tau"] = np.array(P.tau)
    return (drift, ctrls, ini, tgt), kw


def types(P):
    """dyn_type, prop_type, fid_type and fid_params of a problem."""
    p = P.p
    o = dict(dyn_type=P.dyn, prop_type=p.get("prop", "DEF"))
    if P.fid in ("PSU", "SU"):
        o["fid_type"], o["fid_params"] = "UNIT", {"phase_option": P.fid}
    elif P.fid == "TDA":
        o["fid_type"] = "TDAPPROX"
    else:
        o["fid_type"] = "TRACEDIFF" if o["prop_type"] != "APPROX" else "DEF"
    if p.get("scale") is not None:
        o.setdefault("fid_params", {})["scale_factor"] = p["scale"]
    return o


class Captured(Exception):
    pass


def capture(f, *a, **kw):
    """The optimiser that an entry point sets up and starts."""
    got = []

    def grab(self, term_conds=None):
        got.append(self)
        raise Captured()

    saved = []
    for cls in vars(qopt).values():
        if isinstance(cls, type) and "run_optimization" in vars(cls):
            saved.append((cls, cls.run_optimization))
            cls.run_optimization = grab
    try:
        f(*a, **kw)
    except Captured:
        pass
    finally:
        for cls, m in saved:
            cls.run_optimization = m
    expect(len(got) == 1, "the entry point started %d runs" % len(got))
    return got[0]


def quiet(f, *a, **kw):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore", FutureWarning)
        return f(*a, **kw)


# ------------------------------------------------------------------ agreement
def manual(args, kw, alg):
    """The documented way of using the factory."""
    kw = dict(kw)
    opt = quiet(cpo.create_pulse_optimizer, *args, **kw)
    dyn = opt.dynamics
    dyn.init_timeslots()
    amps = np.zeros([dyn.num_tslots, dyn.num_ctrls])
    lists = isinstance(kw.get("amp_lbound"), list) or isinstance(
        kw.get("amp_ubound"), list)
    for j in range(dyn.num_ctrls):
        if alg == "CRAB":
            pg = opt.pulse_generator[j]
            pg.init_pulse()
        else:
            pg = opt.pulse_generator
            if lists:
                pg.lbound = runs.bound(kw.get("amp_lbound"), j, None)
                pg.ubound = runs.bound(kw.get("amp_ubound"), j, None)
                pg.init_pulse()
        amps[:, j] = pg.gen_pulse()
    dyn.initialize_controls(amps)
    return opt.run_optimization()


def entry_points(c, P, **extra):
    """[(name, function)] that must all give the same result."""
    args, kw = base_args(c, P)
    kw.update(extra)
    o = types(P)
    alg = c["alg"]
    if alg == "CRAB" and o["prop_type"] == "DEF":
        o["prop_type"] = "DEF"
    kw.update(fid_err_targ=c["targ"], max_iter=c["max_iter"],
              max_wall_time=1000.0, amp_lbound=c["lb"], amp_ubound=c["ub"])
    if c["method"] is not None:
        kw["optim_method"] = c["method"]
    if c["dyn_params"]:
        kw["dyn_params"] = c["dyn_params"]
    for k in c["marks"]:
        if k == "gen_stats":
            kw[k] = True
        elif k == "fid_params":
            o[k] = dict(o.get(k) or {}, **MARK)
        else:
            kw[k] = dict(kw.get(k) or {}, **MARK)
    full = dict(kw, alg=c["alg_name"], **copy.deepcopy(o))
    out = []
    if alg == "GRAPE":
        full.update(min_grad=c["min_grad"], init_pulse_type=c["ptype"],
                    pulse_scaling=c["scaling"], pulse_offset=c["offset"],
                    init_pulse_params=c["pparams"])
        if c["method_params"]:
            full["method_params"] = dict(c["method_params"])
        uni = {k: v for k, v in full.items()
               if k not in ("dyn_type", "prop_type", "fid_type")}
    else:
        full.update(min_grad=0.0, alg_params=dict(c["alg_params"]),
                    init_pulse_type=c["ptype"])
        gp = {}
        if c["ptype"]:
            gp = dict(c["pparams"] or {})
            gp.update(scaling=c["scaling"], offset=c["offset"],
                      pulse_action=c["action"])
            full["init_pulse_params"] = gp
        if c["ramp"]:
            full.update(ramping_pulse_type=c["ramp"],
                        ramping_pulse_params=c["ramp_params"])
        crab = {k: v for k, v in full.items() if k not in (
            "alg", "min_grad", "alg_params", "init_pulse_type",
            "init_pulse_params")}
        ap = dict(c["alg_params"])
        for k in ("num_coeffs", "init_coeff_scaling"):
            if k in ap and c["split"]:
                crab[k] = ap.pop(k)
        if ap or not c["split"]:
            crab["alg_params"] = ap
        if "init_coeff_scaling" not in c["alg_params"]:
            # the default of the factory is left to the pulse generator
            crab.setdefault("init_coeff_scaling", None)
        crab.update(guess_pulse_type=c["ptype"])
        if c["ptype"]:
            if c["split"]:
                crab.update(guess_pulse_params=c["pparams"],
                            guess_pulse_scaling=c["scaling"],
                            guess_pulse_offset=c["offset"],
                            guess_pulse_action=c["action"])
            else:
                crab.update(guess_pulse_params=gp, guess_pulse_scaling=7.0,
                            guess_pulse_offset=-3.0,
                            guess_pulse_action="ADD")
        uni = {k: v for k, v in crab.items()
               if k not in ("dyn_type", "prop_type", "fid_type")}
        out.append(("opt_pulse_crab",
                    lambda: quiet(cpo.opt_pulse_crab, *args, **crab)))
    out.append(("optimize_pulse",
                lambda: quiet(cpo.optimize_pulse, *args, **full)))
    out.append(("create_pulse_optimizer", lambda: manual(args, full, alg)))
    if P.dyn == "UNIT" and P.fid in ("PSU", "SU") and \
            P.p.get("prop", "DEF") == "DEF":
        f = cpo.optimize_pulse_unitary if alg == "GRAPE" \
            else cpo.opt_pulse_crab_unitary
        out.append((f.__name__, lambda: quiet(f, *args, **uni)))
        u2 = dict(uni)
        fp = dict(u2.pop("fid_params"))
        u2["phase_option"] = fp.pop("phase_option")
        if fp:
            u2["fid_params"] = fp
        out.append((f.__name__ + " phase_option",
                    lambda: quiet(f, *args, **u2)))
        u3 = dict(uni, phase_option="SU" if P.fid == "PSU" else "PSU")
        out.append((f.__name__ + " phase_option and fid_params",
                    lambda: quiet(f, *args, **u3)))
        if alg == "CRAB":
            # the factory's own way: parameters of the guess pulse
            pass
    if alg == "CRAB":
        # the first is the reference
        out[0], out[1] = out[1], out[0]
    # deprecated spellings
    dep = dict(full)
    if "optim_method" in dep:
        dep["optim_alg"] = dep.pop("optim_method")
    if "fid_params" in dep:
        fp = dict(dep.pop("fid_params"))
        if "phase_option" in fp:
            dep["phase_option"] = fp.pop("phase_option")
        if "scale_factor" in fp:
            dep["fid_err_scale_factor"] = fp.pop("scale_factor")
        if fp:
            dep["fid_params"] = fp
    if "method_params" in dep:
        mp = dict(dep.pop("method_params"))
        for k in ("max_metric_corr", "accuracy_factor"):
            if k in mp:
                dep[k] = mp.pop(k)
        if mp:
            dep["method_params"] = mp
    dep["amp_update_mode"] = "ALL"
    out.append(("deprecated", lambda: quiet(cpo.optimize_pulse, *args,
                                            **dep)))
    out.append(("deprecated factory", lambda: manual(args, dep, alg)))
    # explicit values win over deprecated ones
    if full.get("fid_params") or full.get("method_params"):
        win = dict(full)
        fp, mp = win.get("fid_params") or {}, win.get("method_params") or {}
        if "phase_option" in fp:
            win["phase_option"] = "SU" if fp["phase_option"] == "PSU" \
                else "PSU"
        if "scale_factor" in fp:
            win["fid_err_scale_factor"] = 11.0
        if "max_metric_corr" in mp:
            win["max_metric_corr"] = 1
        if "accuracy_factor" in mp:
            win["accuracy_factor"] = 1e20
        out.append(("explicit over deprecated",
                    lambda: quiet(cpo.optimize_pulse, *args, **win)))
    return out


FLAGS = ["goal_achieved", "grad_norm_min_reached", "max_iter_exceeded",
         "max_fid_func_exceeded", "wall_time_limit_exceeded",
         "termination_reason", "num_iter", "num_fid_func_calls"]


def differ(a, b):
    """What of two results differs (None: nothing)."""
    for k in ("initial_amps", "time"):
        x, y = np.asarray(getattr(a, k)), np.asarray(getattr(b, k))
        if x.shape != y.shape or not np.allclose(x, y, rtol=1e-12,
                                                 atol=1e-12):
            return k, x, y
    for k in FLAGS:
        if str(getattr(a, k)) != str(getattr(b, k)):
            return k, getattr(a, k), getattr(b, k)
    for k in ("initial_fid_err", "fid_err", "fidelity", "final_amps"):
        x, y = np.asarray(getattr(a, k)), np.asarray(getattr(b, k))
        if x.shape != y.shape or not np.allclose(x, y, rtol=1e-6, atol=1e-7):
            return k, x, y
    for k in ("evo_full_initial", "evo_full_final"):
        x, y = getattr(a, k), getattr(b, k)
        if x.dims != y.dims:
            return k + " dims", x.dims, y.dims
        d = np.abs(arr(x) - arr(y)).max()
        if not d <= 1e-5 * max(1.0, np.abs(arr(x)).max()):
            return k, arr(x), arr(y)
    return None


def marked(c, r, name):
    """What was passed has reached the objects of the run."""
    o = r.optimizer
    where = dict(dyn_params=o.dynamics, prop_params=o.dynamics.prop_computer,
                 fid_params=o.dynamics.fid_computer,
                 tslot_params=o.dynamics.tslot_computer, optim_params=o)
    for k in c["marks"]:
        if k == "gen_stats":
            expect(r.stats is not None, "%s: no statistics" % name)
            continue
        for n, v in MARK.items():
            expect(getattr(where[k], n, None) == v,
                   "%s: %s did not reach the object" % (name, k))
    for n, v in c["dyn_params"].items():
        expect(getattr(o.dynamics, n) == v,
               "%s: dynamics.%s is %r, given %r"
               % (name, n, getattr(o.dynamics, n), v))
    tc = o.termination_conditions
    expect(tc.max_wall_time == 1000.0 and tc.max_iterations == c["max_iter"]
           and tc.fid_err_targ == c["targ"],
           "%s: the limits are %r, %r, %r" % (
               name, tc.max_wall_time, tc.max_iterations, tc.fid_err_targ))


def check(c, rec):
    P = Prob(c["p"])
    eps = entry_points(c, P)

    def go(f):
        np.random.seed(c["seed"])
        return f()

    ref = go(eps[0][1])
    marked(c, ref, eps[0][0])
    if not np.isfinite(ref.final_amps).all() or not np.isfinite(ref.fid_err):
        rec.label("not finite")
        rec.trivial()
        return
    for name, f in eps[1:]:
        rec.label(c["alg"] + " " + name)
        r = go(f)
        marked(c, r, name)
        d = differ(ref, r)
        if d is None:
            continue
        if differ(ref, go(eps[0][1])) is not None:
            rec.label("not reproducible")
            continue
        raise Violation("%s and %s differ in %s: %s and %s" % (
            (eps[0][0], name) + d))
    rec.label("method %s" % c["method"], "pulse %s" % c["ptype"])
    if np.array_equal(ref.initial_amps, ref.final_amps):
        rec.trivial()


PTYPES = ["DEF", "RND", "LIN", "ZERO", "SINE", "SQUARE", "SAW", "TRIANGLE",
          "RNDWALK1", "RNDFOURIER", "GAUSSIAN"]
PARAMS = {"SINE": {"num_waves": 2}, "SQUARE": {"num_waves": 1.5},
          "SAW": {"num_waves": 1}, "TRIANGLE": {"start_phase": 0.5},
          "LIN": {"start_val": -0.5, "end_val": 0.25}}


def alg_name(draw, alg):
    return draw(st.sampled_from([alg, alg, alg.lower(), alg.capitalize()]))


@st.composite
def agree_case(draw):
    p = draw(gens.problem_cfg(dyns=("UNIT", "UNIT", "UNIT", "GEN_MAT",
                                    "SYMPL"), max_ts=4, dims=(2, 2, 3)))
    if p["dyn"] == "UNIT" and p["fid"] in ("PSU", "SU") and \
            draw(st.integers(0, 3)):
        p["prop"] = "DEF"
    alg = draw(st.sampled_from(["GRAPE", "GRAPE", "CRAB"]))
    if alg == "CRAB" and p["fid"] == "TD" and p.get("prop", "DEF") == "DEF":
        p["prop"] = "FRECHET"
    c = dict(p=p, alg=alg, alg_name=alg_name(draw, alg),
             seed=draw(st.integers(0, 999)))
    cfg = p.get("cfg") or {}
    c["dyn_params"] = {}
    if cfg.get("mem"):
        c["dyn_params"]["memory_optimization"] = cfg["mem"]
    c["marks"] = draw(st.lists(st.sampled_from(
        ["dyn_params", "prop_params", "fid_params", "tslot_params",
         "optim_params", "gen_stats"]), max_size=3, unique=True))
    c["targ"] = draw(st.sampled_from([-1.0, 1e-10, 1e-3, 0.2, 0.9]))
    c["min_grad"] = draw(st.sampled_from([1e-10, 1e-3, 0.1]))
    c["max_iter"] = draw(st.integers(1, 6))
    c["lb"], c["ub"] = None, None
    c["scaling"] = draw(st.sampled_from([1.0, 0.5, 2.0, 0.1]))
    c["offset"] = draw(st.sampled_from([0.0, 0.25, -1.0]))
    if alg == "GRAPE":
        c["method"] = draw(st.sampled_from(
            [None, "DEF", "def", "FMIN_L_BFGS_B", "fmin_l_bfgs_b", "LBFGSB",
             "FMIN_BFGS", "L-BFGS-B", "BFGS", "CG", "SLSQP",
             "Nelder-Mead"]))
        if str(c["method"]).upper() in ("NONE", "DEF", "FMIN_L_BFGS_B",
                                        "LBFGSB", "L-BFGS-B", "SLSQP"):
            c["lb"], c["ub"] = draw(runs.bounds_strat(p["nc"]))
        c["ptype"] = draw(st.sampled_from(PTYPES))
        c["pparams"] = copy.deepcopy(draw(st.sampled_from(
            [None, PARAMS.get(c["ptype"])])))
        c["method_params"] = {}
        if str(c["method"]).upper() in ("NONE", "DEF", "FMIN_L_BFGS_B",
                                        "LBFGSB"):
            if draw(st.booleans()):
                c["method_params"]["max_metric_corr"] = draw(
                    st.integers(2, 12))
            if draw(st.integers(0, 3)) == 0:
                c["method_params"]["accuracy_factor"] = draw(
                    st.sampled_from([1e7, 1e12]))
    else:
        c["method"] = draw(st.sampled_from(
            [None, "fmin", "FMIN", "Nelder-Mead", "Powell"]))
        if draw(st.integers(0, 2)) == 0:
            c["lb"], c["ub"] = draw(runs.bounds_strat(p["nc"]))
        c["alg_params"] = {}
        c["alg_params"]["num_coeffs"] = draw(st.integers(1, 3))
        if draw(st.booleans()):
            c["alg_params"]["init_coeff_scaling"] = draw(st.sampled_from(
                [0.5, 1.0, 3.0]))
        if draw(st.integers(0, 3)) == 0:
            c["alg_params"]["fix_frequency"] = False
        c["ptype"] = draw(st.sampled_from([None, None, "LIN", "SINE", "ZERO",
                                           "RND"]))
        c["pparams"] = copy.deepcopy(draw(st.sampled_from(
            [None, PARAMS.get(c["ptype"])])))
        c["action"] = draw(st.sampled_from(["MODULATE", "ADD"]))
        c["ramp"] = draw(st.sampled_from([None, None, "GAUSSIAN_EDGE"]))
        c["ramp_params"] = dict(draw(st.sampled_from(
            [{}, {"decay_time": 0.5}]))) or None
        c["split"] = draw(st.booleans())
    return c


# ----------------------------------------------------------------- forwarding
DYN = {"UNIT": dynamics.DynamicsUnitary, "GEN_MAT": dynamics.DynamicsGenMat,
       "SYMPL": dynamics.DynamicsSymplectic}
PROP = {"APPROX": propcomp.PropCompApproxGrad, "DIAG": propcomp.PropCompDiag,
        "AUG_MAT": propcomp.PropCompAugMat,
        "FRECHET": propcomp.PropCompFrechet}
FID = {"UNIT": fidcomp.FidCompUnitary, "TRACEDIFF": fidcomp.FidCompTraceDiff,
       "TDAPPROX": fidcomp.FidCompTraceDiffApprox,
       "TD_APPROX": fidcomp.FidCompTraceDiffApprox}
PULSE = {"RND": pulsegen.PulseGenRandom, "LIN": pulsegen.PulseGenLinear,
         "ZERO": pulsegen.PulseGenZero, "SINE": pulsegen.PulseGenSine,
         "SQUARE": pulsegen.PulseGenSquare, "SAW": pulsegen.PulseGenSaw,
         "TRIANGLE": pulsegen.PulseGenTriangle,
         "GAUSSIAN": pulsegen.PulseGenGaussian,
         "GAUSSIAN_EDGE": pulsegen.PulseGenGaussianEdge,
         "RNDFOURIER": pulsegen.PulseGenRndFourier,
         "RNDWAVES": pulsegen.PulseGenRndWaves,
         "RNDWALK1": pulsegen.PulseGenRndWalk1,
         "RNDWALK2": pulsegen.PulseGenRndWalk2}
OPTIM = {"FMIN_BFGS": qopt.OptimizerBFGS, "LBFGSB": qopt.OptimizerLBFGSB,
         "FMIN_L_BFGS_B": qopt.OptimizerLBFGSB,
         "FMIN": qopt.OptimizerCrabFmin}


def eq(a, b, what):
    if isinstance(b, np.ndarray) or isinstance(a, np.ndarray):
        ok = np.array_equal(np.asarray(a), np.asarray(b))
    else:
        ok = a is b or (type(a) is type(b) and a == b) or (
            not isinstance(a, bool) and not isinstance(b, bool) and a == b)
    expect(ok, "%s is %r, given %r" % (what, a, b))


def attrs(obj, d, what):
    for k, v in (d or {}).items():
        expect(hasattr(obj, k), "%s has no attribute %s" % (what, k))
        eq(getattr(obj, k), v, "%s.%s" % (what, k))


def check_fwd(c, rec):
    P = Prob(c["p"])
    args, kw = base_args(c, P)
    o = copy.deepcopy(c["o"])
    dep = copy.deepcopy(c["dep"])
    given = dict(kw, **copy.deepcopy(o))
    given.update(dep)
    ep = c["ep"]
    f = getattr(cpo, ep)
    if ep == "optimize_pulse_unitary":
        for k in ("dyn_type", "prop_type", "fid_type"):
            given.pop(k, None)
    if ep == "create_pulse_optimizer":
        opt = quiet(f, *args, **given)
    else:
        np.random.seed(c["seed"])
        opt = quiet(capture, f, *args, **given)
    if ep == "optimize_pulse_unitary":
        o["prop_type"], o["fid_type"] = "DEF", "DEF"
        o["dyn_type"] = "UNIT"
    dyn = opt.dynamics
    pc, fc, tsc = dyn.prop_computer, dyn.fid_computer, dyn.tslot_computer
    tc = opt.termination_conditions
    # problem
    drift, ctrls, ini, tgt = args
    expect(dyn.num_ctrls == P.nc, "number of controls")
    expect(dyn.initial == ini and dyn.target == tgt, "initial or target")
    got = dyn.drift_dyn_gen
    expect(got == drift if not P.p["td"] else
           len(got) == P.nts and all(x == y for x, y in zip(got, drift)),
           "drift")
    for j in range(P.nc):
        if P.p["tc"]:
            expect(all(dyn.ctrl_dyn_gen[k, j] == ctrls[k, j]
                       for k in range(P.nts)), "controls")
        else:
            expect(dyn.ctrl_dyn_gen[j] == ctrls[j], "controls")
    eq(dyn.num_tslots, P.nts, "number of slots")
    if P.equal:
        # (equal slots are held in single precision)
        expect(abs(dyn.evo_time - P.evo_time) <= 1e-6 * P.evo_time,
               "evo_time is %r, given %r" % (dyn.evo_time, P.evo_time))
    else:
        eq(np.array(dyn.tau), np.array(P.tau), "tau")
    # types
    eq(type(dyn), DYN[o["dyn_type"]], "dynamics class")
    alg = c["alg"]
    pt = o["prop_type"]
    if pt == "DEF":
        pt = "APPROX" if alg == "CRAB" else (
            "DIAG" if o["dyn_type"] == "UNIT" else "FRECHET")
    eq(type(pc), PROP[pt], "propagator computer class")
    ft = (o["fid_type"] or "DEF").upper()
    if ft in ("DEF", ""):
        eq(type(fc), fidcomp.FidCompUnitary if o["dyn_type"] == "UNIT"
           else fidcomp.FidCompTraceDiff, "fidelity computer class")
    else:
        expect(isinstance(fc, FID[ft]), "fidelity computer is %s for %s" % (
            type(fc).__name__, ft))
        if ft != "TRACEDIFF":
            eq(type(fc), FID[ft], "fidelity computer class")
    eq(type(tsc), tslotcomp.TSlotCompUpdateAll, "timeslot computer class")
    for x in (pc, fc, tsc):
        expect(x.parent is dyn, "%s belongs to another dynamics" % (
            type(x).__name__))
    m = dep.get("optim_alg") or o.get("optim_method")
    mu = (m or "DEF").upper()
    if mu == "DEF":
        mu = "FMIN" if alg == "CRAB" else "FMIN_L_BFGS_B"
    eq(type(opt), OPTIM.get(mu, qopt.OptimizerCrab if alg == "CRAB"
                            else qopt.Optimizer), "optimizer class")
    eq(opt.alg.upper(), alg, "algorithm")
    eq(opt.method.upper(), mu, "method")
    # parameter dictionaries
    dp = dict(o.get("dyn_params") or {})
    if P.dyn == "GEN_MAT":
        # nothing is phased there, so nothing can be cached
        dp.pop("cache_phased_dyn_gen", None)
    attrs(dyn, dp, "dynamics")
    attrs(pc, o.get("prop_params"), "propagator computer")
    fp = dict(o.get("fid_params") or {})
    if dep.get("phase_option") is not None:
        fp.setdefault("phase_option", dep["phase_option"])
    if dep.get("fid_err_scale_factor") is not None:
        fp.setdefault("scale_factor", dep["fid_err_scale_factor"])
    if ep == "optimize_pulse_unitary":
        fp.setdefault("phase_option", dep.get("phase_option", "PSU"))
    attrs(fc, fp, "fidelity computer")
    attrs(tsc, o.get("tslot_params"), "timeslot computer")
    op = dict(o.get("optim_params") or {})
    mp = dict(o.get("method_params") or {})
    for k in ("max_metric_corr", "accuracy_factor"):
        if dep.get(k) is not None:
            mp.setdefault(k, dep[k])
    for k in op:
        if k not in mp:
            eq(getattr(opt, k), op[k], "optimizer." + k)
    want_tc = dict(fid_err_targ=o["fid_err_targ"],
                   min_gradient_norm=o["min_grad"],
                   max_iterations=o["max_iter"],
                   max_wall_time=o["max_wall_time"])
    for k, v in mp.items():
        if k in want_tc or k in ("max_fid_func_calls", "fid_goal"):
            want_tc[k] = v
        elif k == "accuracy_factor" and hasattr(tc, k):
            want_tc[k] = v
        elif k == "max_metric_corr" and hasattr(opt, k):
            eq(getattr(opt, k), v, "optimizer." + k)
        else:
            eq((opt.method_options or {}).get(k), v, "method option " + k)
    attrs(tc, want_tc, "termination conditions")
    eq(opt.amp_lbound, o["amp_lbound"], "lower bound")
    eq(opt.amp_ubound, o["amp_ubound"], "upper bound")
    # statistics
    if o.get("gen_stats"):
        expect(isinstance(opt.stats, qstats.Stats) and opt.stats is dyn.stats,
               "statistics objects")
    else:
        expect(opt.stats is None and dyn.stats is None,
               "statistics although not asked for")
    # log level
    if c.get("log"):
        for x in (dyn, opt, opt.config, pc, fc, tsc):
            eq(x.log_level, c["log"], type(x).__name__ + ".log_level")
    # pulse generators
    ipt = o.get("init_pulse_type")
    if alg == "GRAPE":
        pg = opt.pulse_generator
        eq(type(pg), PULSE["RND" if ipt in (None, "DEF", "def") else ipt],
           "pulse generator class")
        # (parameters are applied after the generator is created)
        ip = o.get("init_pulse_params") or {}
        eq(pg.scaling, ip.get("scaling", o["pulse_scaling"]), "pulse scaling")
        eq(pg.offset, ip.get("offset", o["pulse_offset"]), "pulse offset")
        attrs(pg, o.get("init_pulse_params"), "pulse generator")
        if ep == "create_pulse_optimizer" or not (
                isinstance(o["amp_lbound"], list) or
                isinstance(o["amp_ubound"], list)):
            eq(pg.lbound, o["amp_lbound"], "pulse lower bound")
            eq(pg.ubound, o["amp_ubound"], "pulse upper bound")
        eq(pg.num_tslots, P.nts, "slots of the pulse generator")
    else:
        pgs = opt.pulse_generator
        expect(isinstance(pgs, list) and len(pgs) == P.nc,
               "pulse generators %s" % (pgs,))
        expect(len(set(map(id, pgs))) == P.nc, "shared pulse generators")
        ap = o.get("alg_params") or {}
        for j, pg in enumerate(pgs):
            eq(type(pg), pulsegen.PulseGenCrabFourier, "generator class")
            if ap.get("num_coeffs") is not None:
                eq(pg.num_coeffs, ap["num_coeffs"], "num_coeffs")
            eq(bool(pg.fix_freqs), ap.get("fix_frequency", True),
               "fixed frequencies")
            if ap.get("init_coeff_scaling") is not None:
                eq(pg.scaling, ap["init_coeff_scaling"], "coeff scaling")
            attrs(pg, ap.get("crab_pulse_params"), "CRAB generator")
            eq(pg.lbound, runs.bound(o["amp_lbound"], j, None), "lbound")
            eq(pg.ubound, runs.bound(o["amp_ubound"], j, None), "ubound")
            ip = o.get("init_pulse_params") or {}
            if ipt not in (None, "DEF"):
                expect(pg.guess_pulse is not None and
                       np.shape(pg.guess_pulse) == (P.nts,), "guess pulse %r"
                       % (pg.guess_pulse,))
                if ipt != "RND":
                    q = dict(scaling=o.get("pulse_scaling", 1.0),
                             offset=o.get("pulse_offset", 0.0))
                    q.update((x, y) for x, y in ip.items()
                             if x != "pulse_action")
                    q.update(lbound=pg.lbound, ubound=pg.ubound)
                    want = pulsegen.create_pulse_gen(ipt, dyn, q).gen_pulse()
                    expect(np.allclose(pg.guess_pulse, want, rtol=1e-5,
                                       atol=1e-5), "guess pulse is %s, the "
                           "generator gives %s" % (pg.guess_pulse, want))
                if ip.get("pulse_action"):
                    eq(pg.guess_pulse_action, ip["pulse_action"],
                       "guess pulse action")
            else:
                expect(pg.guess_pulse is None, "unwanted guess pulse")
            if o.get("ramping_pulse_type"):
                expect(np.shape(pg.ramping_pulse) == (P.nts,), "ramping "
                       "pulse %r" % (pg.ramping_pulse,))
                want = pulsegen.create_pulse_gen(
                    o["ramping_pulse_type"], dyn,
                    o.get("ramping_pulse_params")).gen_pulse()
                expect(np.allclose(pg.ramping_pulse, want, rtol=1e-5,
                                   atol=1e-6), "ramping pulse is %s, the "
                       "generator gives %s" % (pg.ramping_pulse, want))
            else:
                expect(pg.ramping_pulse is None, "unwanted ramping pulse")
    rec.label(ep, alg, "optimizer " + type(opt).__name__)
    n = sum(v not in (None, {}, "DEF") for v in o.values())
    rec.label("%d options" % min(n, 12))
    for k in dep:
        rec.label("deprecated " + k)
    if n < 8:
        rec.trivial()


MARK = {"my_attribute": 17}


@st.composite
def fwd_case(draw):
    p = draw(gens.problem(dyns=("UNIT", "UNIT", "GEN_MAT", "SYMPL"),
                          max_ts=4, dims=(2, 2, 3)))
    alg = draw(st.sampled_from(["GRAPE", "GRAPE", "CRAB"]))
    ep = draw(st.sampled_from(["create_pulse_optimizer", "optimize_pulse"] +
                              (["optimize_pulse_unitary"]
                               if p["dyn"] == "UNIT" else [])))
    some = lambda s: draw(st.one_of(st.none(), s))
    mark = lambda: some(st.just(MARK))
    o = dict(alg=alg_name(draw, alg), dyn_type=p["dyn"])
    o["fid_type"] = draw(st.sampled_from(
        ["DEF", "", "TRACEDIFF", "tracediff"] +
        (["UNIT", "unit"] if p["dyn"] == "UNIT" else [])))
    o["prop_type"] = draw(st.sampled_from(
        ["DEF", "FRECHET", "AUG_MAT"] + (["DIAG"] if p["dyn"] == "UNIT"
                                         else [])))
    if alg == "CRAB" and o["fid_type"].upper() == "TRACEDIFF" or \
            alg == "CRAB" and p["dyn"] != "UNIT":
        o["prop_type"] = "FRECHET"
    if draw(st.integers(0, 5)) == 0:
        o["fid_type"] = draw(st.sampled_from(["TDAPPROX", "TD_APPROX",
                                              "tdapprox"]))
        o["prop_type"] = "APPROX"
    o["fid_err_targ"] = draw(st.sampled_from([1e-10, 1e-3, 0.0, 0.7]))
    o["min_grad"] = draw(st.sampled_from([1e-10, 0.0, 0.5]))
    o["max_iter"] = draw(st.integers(1, 1000))
    o["max_wall_time"] = draw(st.sampled_from([180, 0.5, 1e6]))
    o["amp_lbound"], o["amp_ubound"] = draw(runs.bounds_strat(p["nc"]))
    o["gen_stats"] = draw(st.booleans())
    o["dyn_params"] = some(st.sampled_from(
        [{"memory_optimization": 1}, {"cache_prop_grad": False},
         {"fact_mat_round_prec": 1e-9}, {"unitarity_tol": 1e-6},
         {"cache_phased_dyn_gen": True}, MARK, {}]))
    o["prop_params"] = mark()
    o["tslot_params"] = mark()
    fp = draw(st.sampled_from(["none", "mark", "opt", "empty"]))
    o["fid_params"] = {"none": None, "mark": dict(MARK), "empty": {},
                       "opt": None}[fp]
    uni = ep == "optimize_pulse_unitary" or (
        p["dyn"] == "UNIT" and o["fid_type"].upper() in ("DEF", "", "UNIT"))
    if fp == "opt":
        if uni:
            o["fid_params"] = {"phase_option": draw(
                st.sampled_from(["SU", "PSU"]))}
        else:
            o["fid_params"] = {"scale_factor": draw(
                st.sampled_from([0.5, 2.0]))}
    if alg == "CRAB":
        m = draw(st.sampled_from([None, "DEF", "fmin", "FMIN", "Nelder-Mead",
                                  "Powell", "BFGS"]))
    else:
        m = draw(st.sampled_from([None, "DEF", "def", "FMIN_L_BFGS_B",
                                  "LBFGSB", "lbfgsb", "FMIN_BFGS", "BFGS",
                                  "L-BFGS-B", "CG", "SLSQP", "Nelder-Mead",
                                  "Powell"]))
    o["optim_method"] = m
    o["optim_params"] = some(st.sampled_from(
        [MARK, {"approx_grad": True}, {"disp_conv_msg": True}, {},
         {"record_iteration_steps": True}]))
    mp = draw(st.sets(st.sampled_from(
        ["max_metric_corr", "accuracy_factor", "max_fid_func_calls",
         "max_iterations", "min_gradient_norm", "max_wall_time", "eps",
         "maxls", "fid_err_targ", "fid_goal"])))
    vals = dict(max_metric_corr=draw(st.integers(1, 30)),
                accuracy_factor=1e9, max_fid_func_calls=321,
                max_iterations=77, min_gradient_norm=1e-3,
                max_wall_time=12.5, eps=1e-7, maxls=13,
                fid_err_targ=1e-2, fid_goal=0.875)
    o["method_params"] = {k: vals[k] for k in sorted(mp)} if mp else None
    if alg == "GRAPE":
        o["pulse_scaling"] = draw(st.sampled_from([1.0, 0.5, 3.0]))
        o["pulse_offset"] = draw(st.sampled_from([0.0, 0.5, -2.0]))
        o["init_pulse_type"] = draw(st.sampled_from(
            [None, "DEF", "def"] + sorted(PULSE)))
        extra = {"SINE": {"num_waves": 3}, "SQUARE": {"start_phase": 0.25},
                 "LIN": {"start_val": 0.5}, "RNDWAVES": {"num_comp_waves": 3},
                 "GAUSSIAN": {"mean": 0.5, "variance": 0.2},
                 "RNDWALK1": {"max_d_amp": 0.25}}
        o["init_pulse_params"] = draw(st.sampled_from(
            [None, None, extra.get(o["init_pulse_type"]), {"scaling": 0.25},
             {"offset": 0.125}]))
    else:
        a = {}
        if draw(st.booleans()):
            a["num_coeffs"] = draw(st.integers(1, 6))
        if draw(st.booleans()):
            a["fix_frequency"] = draw(st.booleans())
        if draw(st.booleans()):
            a["init_coeff_scaling"] = draw(st.sampled_from([0.25, 2.0]))
        if draw(st.integers(0, 2)) == 0:
            a["crab_pulse_params"] = draw(st.sampled_from(
                [{"randomize_freqs": False}, MARK,
                 {"randomize_coeffs": False}]))
        o["alg_params"] = some(st.just(a))
        o["init_pulse_type"] = draw(st.sampled_from(
            [None, None, "DEF", "LIN", "SINE", "ZERO", "RND"]))
        o["init_pulse_params"] = draw(st.sampled_from(
            [None, {"pulse_action": "ADD"}, {"pulse_action": "MODULATE"},
             {"scaling": 0.25}, {"offset": 0.125, "pulse_action": "ADD"}]))
        if draw(st.booleans()):
            o["pulse_scaling"] = draw(st.sampled_from([1.0, 0.5, 3.0]))
        if draw(st.booleans()):
            o["pulse_offset"] = draw(st.sampled_from([0.0, 0.5, -2.0]))
        if draw(st.integers(0, 2)) == 0:
            o["ramping_pulse_type"] = draw(st.sampled_from(
                ["GAUSSIAN_EDGE", "LIN"]))
            o["ramping_pulse_params"] = draw(st.sampled_from(
                [None, {"decay_time": 0.25}])) \
                if o["ramping_pulse_type"] != "LIN" else {"start_val": 0.5}
    dep = {}
    if draw(st.booleans()):
        ks = draw(st.sets(st.sampled_from(
            ["optim_alg", "max_metric_corr", "accuracy_factor",
             "phase_option", "fid_err_scale_factor", "amp_update_mode"]),
            max_size=4))
        if "optim_alg" in ks:
            dep["optim_alg"] = "fmin" if alg == "CRAB" else draw(
                st.sampled_from(["LBFGSB", "FMIN_BFGS", "BFGS"]))
        if "max_metric_corr" in ks:
            dep["max_metric_corr"] = 19
        if "accuracy_factor" in ks:
            dep["accuracy_factor"] = 3e8
        if "phase_option" in ks and uni:
            dep["phase_option"] = draw(st.sampled_from(["SU", "PSU"]))
        if "fid_err_scale_factor" in ks and not uni and \
                ep != "optimize_pulse_unitary":
            dep["fid_err_scale_factor"] = 0.75
        if "amp_update_mode" in ks:
            dep["amp_update_mode"] = "ALL"
    log = draw(st.sampled_from([40, 40, 40, 30, 20, 10]))
    o = {k: v for k, v in o.items() if not (v is None and draw(st.booleans())
                                            and k not in REQ)}
    return dict(p=p, alg=alg, ep=ep, o=o, dep=dep, log=log,
                seed=draw(st.integers(0, 999)))


REQ = {"amp_lbound", "amp_ubound", "fid_type", "prop_type"}


# ------------------------------------------------------------------ selectors
@st.composite
def sel_case(draw):
    p = draw(gens.problem(dyns=("UNIT", "UNIT", "GEN_MAT", "SYMPL"),
                          max_ts=2, dims=(2,)))
    which = draw(st.sampled_from(
        ["alg", "dyn_type", "prop_type", "fid_type", "init_pulse_type",
         "optim_method", "time", "ramping_pulse_type"]))
    word = draw(st.text(alphabet="ABCDEFGRTUXYZ_", min_size=1, max_size=8))
    return dict(p=p, which=which, word=word,
                alg=draw(st.sampled_from(["GRAPE", "CRAB"])),
                ep=draw(st.sampled_from(["create_pulse_optimizer",
                                         "optimize_pulse"])),
                time=draw(st.sampled_from(["no evo", "no nts", "neither"])))


KNOWN = dict(alg={"GRAPE", "CRAB"}, dyn_type=set(DYN) | {""},
             prop_type=set(PROP) | {"DEF", ""},
             fid_type=set(FID) | {"DEF", ""},
             init_pulse_type=set(PULSE) | {"DEF", "CRAB_FOURIER", ""},
             ramping_pulse_type=set(PULSE) | {"CRAB_FOURIER"})


def check_sel(c, rec):
    P = Prob(c["p"])
    args, kw = base_args(c, P)
    w = c["which"]
    kw.update(dyn_type=P.dyn, max_iter=1)
    if w == "time":
        kw.pop("tau", None)
        kw.update(num_tslots=3, evo_time=1.0)
        if c["time"] in ("no evo", "neither"):
            kw.pop("evo_time")
        if c["time"] in ("no nts", "neither"):
            kw.pop("num_tslots")
        want = errors.UsageError
    elif w == "optim_method":
        # simplex wrapper only exists for CRAB
        kw["optim_method"] = "fmin"
        want = errors.UsageError
    else:
        if c["word"] in KNOWN[w]:
            rec.trivial()
            return
        kw[w] = c["word"]
        want = (errors.UsageError, ValueError)
    if w not in ("alg", "optim_method"):
        kw["alg"] = c["alg"]
    try:
        quiet(getattr(cpo, c["ep"]), *args, **kw)
    except want as e:
        if w not in ("time", "optim_method"):
            expect(c["word"] in str(e), "message %r does not name %r"
                   % (str(e), c["word"]))
    else:
        raise Violation("%s=%r was accepted" % (w, c.get("word")))
    rec.label(w)


# ------------------------------------------------- options of the minimisers
@st.composite
def min_case(draw):
    c = draw(runs.run_case(max_runs=1, max_ts=3))
    c["p"]["cfg"] = {}
    opts = draw(st.lists(st.sampled_from(
        ["max_metric_corr", "accuracy_factor", "max_fid_func_calls",
         "max_iterations", "min_gradient_norm", "disp_conv_msg", "own",
         "xtol", "ftol"]), unique=True, max_size=6))
    vals = dict(max_metric_corr=draw(st.integers(2, 30)),
                accuracy_factor=draw(st.sampled_from([10.0, 1e9, 1e12])),
                max_fid_func_calls=draw(st.integers(40, 400)),
                max_iterations=draw(st.integers(1, 5)),
                min_gradient_norm=draw(st.sampled_from([1e-12, 1e-4])),
                disp_conv_msg=True,
                xtol=draw(st.sampled_from([1e-3, 1e-8])),
                ftol=draw(st.sampled_from([1e-3, 1e-8])))
    c["mp"] = {k: vals[k] for k in opts if k != "own"}
    m = c["method"]
    if m != "FMIN":
        c["mp"].pop("xtol", None)
        c["mp"].pop("ftol", None)
    if "own" in opts and m in OWN:
        k, v = draw(st.sampled_from(OWN[m]))
        if k == "maxcor":
            c["mp"].pop("max_metric_corr", None)
        if k == "ftol":
            c["mp"].pop("accuracy_factor", None)
        c["mp"][k] = v
    if m not in ("FMIN", "FMIN_BFGS", "FMIN_L_BFGS_B", "LBFGSB") and \
            draw(st.booleans()):
        # options by the names of scipy take precedence over the conditions
        for k in draw(st.lists(st.sampled_from(
                ["gtol", "maxiter", "maxfev", "disp"]), unique=True,
                min_size=1)):
            c["mp"][k] = {"gtol": 3e-5, "maxiter": 4, "maxfev": 333,
                          "disp": False}[k]
    c["how"] = draw(st.sampled_from(["factory", "attribute", "call"]))
    # settings of the configuration, where the parameters give none
    c["conf"] = {}
    if m in ("FMIN_L_BFGS_B", "LBFGSB") and draw(st.integers(0, 3)) == 0:
        if not {"max_metric_corr", "maxcor"} & set(c["mp"]):
            c["conf"]["max_metric_corr"] = draw(st.integers(2, 30))
        if not {"accuracy_factor", "ftol"} & set(c["mp"]):
            c["conf"]["accuracy_factor"] = draw(st.sampled_from([10.0, 1e9]))
    return c


OWN = {"BFGS": [("norm", 2), ("eps", 1e-7)], "CG": [("norm", 2)],
       "L-BFGS-B": [("maxls", 30), ("ftol", 1e-12), ("maxcor", 7)],
       "SLSQP": [("ftol", 1e-9)], "Powell": [("xtol", 1e-3)],
       "Nelder-Mead": [("xatol", 1e-3), ("fatol", 1e-3), ("adaptive", True)],
       "FMIN_L_BFGS_B": [("ftol", 1e8), ("maxcor", 4)]}
SCIPY = ["minimize", "fmin_bfgs", "fmin", "fmin_l_bfgs_b"]


def spied(f):
    """Keyword arguments with which f called a minimiser of scipy."""
    import scipy.optimize as spopt
    calls, saved = [], []
    for mod in (spopt, qopt):
        for n in SCIPY:
            g = vars(mod).get(n)
            if g is None:
                continue

            def h(*a, n=n, g=g, **kw):
                b = inspect.signature(g).bind(*a, **kw)
                calls.append((n, dict(b.arguments)))
                return g(*a, **kw)

            saved.append((mod, n, g))
            setattr(mod, n, h)
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            res = f()
    finally:
        for mod, n, g in saved:
            setattr(mod, n, g)
    expect(len(calls) == 1, "%d minimiser calls: %s" % (
        len(calls), [n for n, _ in calls]))
    return calls[0][0], calls[0][1], res, out.getvalue()


def check_min(c, rec):
    mp = dict(c["mp"])
    kw = {}
    if c["how"] == "factory":
        kw["method_params"] = mp
    P, opt = runs.make(c, **kw)
    tc = runs.term_conds(dict(targ=-1.0, min_grad=1e-10, max_iter=3), None)
    opt.termination_conditions = tc
    runs.start(c, P, opt)
    # the conditions were replaced, so the parameters are applied again
    if c["how"] == "attribute":
        opt.method_params = mp
    else:
        opt.apply_method_params(mp)
    if c["alg"] == "CRAB":
        x0 = np.concatenate([np.ravel(pg.get_optim_var_vals())
                             for pg in opt.pulse_generator])
    else:
        x0 = np.array(opt.dynamics.ctrl_amps).ravel()
    conf = c.get("conf") or {}
    for key, v in conf.items():
        setattr(opt.config, key, v)
    name, k, res, out = spied(opt.run_optimization)
    m = c["method"]
    w = "%s: " % m
    g = lambda key, d: mp.get(key, d)
    it, fev = g("max_iterations", 3), g("max_fid_func_calls", None)
    pg = g("min_gradient_norm", 1e-10)
    eq(np.asarray(k["x0"]), x0, w + "first guess")
    if m in ("FMIN_L_BFGS_B", "LBFGSB"):
        eq(name, "fmin_l_bfgs_b", "minimiser")
        eq(k["m"], g("max_metric_corr", g(
            "maxcor", conf.get("max_metric_corr", 10))), w + "m")
        eq(k.get("factr", 1e7), g("accuracy_factor", g(
            "ftol", conf.get("accuracy_factor", 1e7))), w + "factr")
        eq(k["pgtol"], pg, w + "pgtol")
        eq(k["maxiter"], it, w + "maxiter")
        if fev:
            eq(k["maxfun"], fev, w + "maxfun")
        eq(bool(k["approx_grad"]), bool(c.get("approx")), w + "approx_grad")
    elif m == "FMIN_BFGS":
        eq(name, "fmin_bfgs", "minimiser")
        eq(k["gtol"], pg, w + "gtol")
        eq(k["maxiter"], it, w + "maxiter")
        eq(bool(k["disp"]), g("disp_conv_msg", False), w + "disp")
        eq(k.get("fprime") is None, bool(c.get("approx")), w + "fprime")
    elif m == "FMIN":
        eq(name, "fmin", "minimiser")
        eq(k["maxiter"], it, w + "maxiter")
        if fev:
            eq(k["maxfun"], fev, w + "maxfun")
        eq(k["xtol"], g("xtol", 1e-4), w + "xtol")
        eq(k["ftol"], g("ftol", 1e-4), w + "ftol")
        eq(bool(k["disp"]), g("disp_conv_msg", False), w + "disp")
    else:
        eq(name, "minimize", "minimiser")
        eq(k["method"], m, "method")
        o = k["options"]
        eq(o["maxiter"], g("maxiter", it), w + "maxiter")
        eq(o["gtol"], g("gtol", pg), w + "gtol")
        if fev or "maxfev" in mp:
            eq(o["maxfev"], g("maxfev", fev), w + "maxfev")
        eq(bool(o["disp"]), g("disp", g("disp_conv_msg", False)), w + "disp")
        if "max_metric_corr" in mp:
            eq(o["maxcor"], g("maxcor", mp["max_metric_corr"]), w + "maxcor")
        if "accuracy_factor" in mp:
            eq(o["ftol"], g("ftol", mp["accuracy_factor"]), w + "ftol")
        for key, v in mp.items():
            if any(key == a for a, _ in OWN.get(m, [])):
                eq(o[key], v, w + key)
        if c["alg"] == "CRAB" or c.get("approx") or m in runs.DIRECT:
            expect(m in runs.DIRECT or k.get("jac") is None,
                   w + "gradient although to be approximated")
        else:
            expect(callable(k.get("jac")), w + "no gradient")
    if not mp.get("disp_conv_msg"):
        expect(out == "", w + "prints %r" % out)
    rec.label(m, c["how"], *mp)
    if not mp:
        rec.trivial()


PARTS = [Part("agreement", agree_case(), check, quick=1200, thorough=12000),
         Part("forwarding", fwd_case(), check_fwd, quick=2400,
              thorough=24000),
         Part("minimisers", min_case(), check_min, quick=1600,
              thorough=16000),
         Part("selectors", sel_case(), check_sel, quick=600, thorough=4000)]
