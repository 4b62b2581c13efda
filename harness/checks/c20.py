"""Rejection of ill-formed problems and options."""
import contextlib
import copy
import os

from hypothesis import strategies as st
import numpy as np
from qutip import Qobj, QobjEvo

import gens
from build import arr, dyn_params, operators, optimizer
from checks import c14
from checks.c18 import in_scratch, listing
from common import close_s, expect
from core import Part, Violation
import qutip_qtrl.dump as qdump
import qutip_qtrl.dynamics as dynamics
import qutip_qtrl.errors as errors
import qutip_qtrl.fidcomp as fidcomp
import qutip_qtrl.grape as grape
import qutip_qtrl.optimconfig as optimconfig
import qutip_qtrl.optimizer as qopt
import qutip_qtrl.pulsegen as pulsegen
import qutip_qtrl.pulseoptim as cpo
import qutip_qtrl.termcond as termcond
import qutip_qtrl.tslotcomp as tslotcomp
from ref import Prob, evolve, fid_err

ID = "C20"
RULE = ("A case is a random control problem with its operators in a random "
        "documented container, a way of giving it (an entry point, the "
        "factory, a Dynamics object set up by hand) and one thing that is "
        "made wrong: the kind of one operator at a random position, or an "
        "option, value, usage or order of calls from a list of "
        "documented ones with random spellings. The well-formed case must be "
        "accepted and give the reference fidelity error, the ill-formed one "
        "must be rejected by the documented kind of error. Non-trivial: "
        "every case in which both were tried.")


# ------------------------------------------------------------------ well formed
def containers(c, P):
    """The operators in the containers named in the case."""
    drift, ctrls, ini, tgt = operators(P)
    if isinstance(drift, list) and c["drift"] == "tuple":
        drift = tuple(drift)
    if isinstance(ctrls, list):
        if c["ctrls"] == "tuple":
            ctrls = tuple(ctrls)
    elif c["ctrls"] == "lists":
        ctrls = [list(r) for r in ctrls]
    elif c["ctrls"] == "tuples":
        ctrls = tuple(tuple(r) for r in ctrls)
    elif c["ctrls"] == "mixed":
        ctrls = [tuple(r) for r in ctrls]
    return [drift, ctrls, ini, tgt]


def flat(x):
    if isinstance(x, Qobj):
        return [x]
    if isinstance(x, np.ndarray) and x.dtype == object:
        return [y for z in x for y in flat(z)]
    if isinstance(x, (list, tuple)):
        return [y for z in x for y in flat(z)]
    return [x]


def snapshot(args):
    out = []
    for a in args:
        f = flat(a)
        out.append((type(a), np.shape(a) if isinstance(a, np.ndarray) else
                    (len(a) if isinstance(a, (list, tuple)) else None),
                    [id(x) for x in f],
                    [x.full() if isinstance(x, Qobj) else copy.deepcopy(x)
                     for x in f]))
    return out


def same(s, args, what):
    for i, (a, b) in enumerate(zip(s, snapshot(args))):
        ok = a[:3] == b[:3]
        for x, y in zip(a[3], b[3]):
            if isinstance(x, np.ndarray):
                ok = ok and isinstance(y, np.ndarray) and np.array_equal(x, y)
        expect(ok, "%s changed argument %d" % (what, i))


def times(P):
    if P.equal:
        return dict(num_tslots=P.nts, evo_time=P.evo_time)
    return dict(tau=np.array(P.tau))


def options(P):
    o = c14.types(P)
    o.update(times(P), log_level=40,
             dyn_params=dyn_params(P.p.get("cfg") or {}))
    return o


class Computed(Exception):
    """An evolution was computed."""


@contextlib.contextmanager
def nothing_computed():
    """Notes whether any evolution is computed inside."""
    hit = []
    saved = []
    for cls in (tslotcomp.TSlotCompUpdateAll, tslotcomp.TSlotCompDynUpdate):
        f = cls.__dict__.get("recompute_evolution")
        if f is None:
            continue

        def g(self, *a, f=f, **kw):
            hit.append(1)
            return f(self, *a, **kw)

        saved.append((cls, f))
        cls.recompute_evolution = g
    try:
        yield hit
    finally:
        for cls, f in saved:
            cls.recompute_evolution = f


def by_hand(P, args):
    """A Dynamics object set up attribute by attribute."""
    cls = {"UNIT": dynamics.DynamicsUnitary,
           "GEN_MAT": dynamics.DynamicsGenMat,
           "SYMPL": dynamics.DynamicsSymplectic}[P.dyn]
    dyn = cls(optimconfig.OptimConfig())
    dyn.log_level = 40
    dyn.apply_params(dyn_params(P.p.get("cfg") or {}))
    if P.equal:
        dyn.num_tslots, dyn.evo_time = P.nts, P.evo_time
    else:
        dyn.tau = np.array(P.tau)
    dyn.drift_dyn_gen, dyn.ctrl_dyn_gen, dyn.initial, dyn.target = args
    return dyn


def give(way, P, args, dyn=None):
    """Give the problem; returns the initialised dynamics (or None)."""
    amps = np.array(P.amps)
    if way == "again":
        # an object that was used for a well-formed problem before
        dyn.drift_dyn_gen, dyn.ctrl_dyn_gen, dyn.initial, dyn.target = args
        dyn.initialize_controls(amps)
        return dyn
    if way == "hand":
        dyn = by_hand(P, args)
        if P.fid in ("PSU", "SU"):
            dyn.fid_computer.phase_option = P.fid
        if P.p.get("scale") is not None:
            dyn.fid_computer.apply_params({"scale_factor": P.p["scale"]})
        dyn.initialize_controls(amps)
        return dyn
    o = options(P)
    if way == "factory":
        opt = cpo.create_pulse_optimizer(*args, **o)
        opt.dynamics.initialize_controls(amps)
        return opt.dynamics
    if way == "optimize_pulse":
        opt = c14.capture(cpo.optimize_pulse, *args, **o)
    elif way == "crab":
        o["prop_type"] = "FRECHET" if P.fid == "TD" else o["prop_type"]
        opt = c14.capture(cpo.opt_pulse_crab, *args, num_coeffs=1, **o)
    else:
        for k in ("dyn_type", "prop_type", "fid_type"):
            o.pop(k, None)
        f = cpo.optimize_pulse_unitary if way == "unitary" \
            else cpo.opt_pulse_crab_unitary
        opt = c14.capture(f, *args, **o)
    opt.dynamics.update_ctrl_amps(amps)
    return opt.dynamics


def accepted(dyn, P, what):
    """The reference fidelity error at the amplitudes of the problem."""
    want = fid_err(P, evolve(P, np.array(dyn.tau, dtype=float))["full"])
    if dyn.fid_computer.__class__ is fidcomp.FidCompUnitary and \
            P.fid not in ("PSU", "SU"):
        return
    if P.fid == "TD" and not isinstance(dyn.fid_computer,
                                        fidcomp.FidCompTraceDiff):
        return
    got = dyn.fid_computer.get_fid_err()
    if np.isfinite(want) and want < 1e6:
        close_s(got, want, what + ": fidelity error", 1e-7)


WAYS = ["hand", "again", "factory", "optimize_pulse", "crab"]
UNI = WAYS + ["unitary", "crab_unitary"]

WRONG = {
    "none": lambda q: None,
    "array": lambda q: q.full(),
    "list": lambda q: q.full().tolist(),
    "number": lambda q: 1.0,
    "zero": lambda q: 0,
    "string": lambda q: "sigmax",
    "dict": lambda q: {"op": q},
    "callable": lambda q: (lambda t: q),
    "wrapped": lambda q: [q],
    "set": lambda q: {1, 2},
    "evo": lambda q: QobjEvo(q),
    "data": lambda q: q.data,
}


def spoil(c, P, args):
    """One thing of the wrong kind; returns where."""
    pos, wrong = c["pos"], WRONG[c["wrong"]]
    drift, ctrls, ini, tgt = args
    if pos in ("initial", "target"):
        i = 2 if pos == "initial" else 3
        args[i] = wrong(args[i])
    elif pos == "drift":
        if c["wrong"] == "wrapped":
            # a list holding a list
            args[0] = [[drift if isinstance(drift, Qobj) else drift[0]]]
        else:
            args[0] = wrong(flat(drift)[0])
            if c["wrong"] == "array" and c["k"] % 2:
                a = np.empty(P.nts, dtype=object)
                for k in range(P.nts):
                    a[k] = flat(drift)[0]
                args[0] = a
    elif pos == "drift element":
        d = [flat(drift)[k % len(flat(drift))] for k in range(P.nts)]
        d[c["k"] % P.nts] = wrong(d[c["k"] % P.nts])
        args[0] = tuple(d) if c["drift"] == "tuple" else d
    elif pos == "ctrls":
        q = flat(ctrls)[0]
        if c["wrong"] == "wrapped":
            args[1] = q             # one operator, not in a list
        else:
            args[1] = wrong(q)
            if c["wrong"] == "list":
                args[1] = q.full().ravel().tolist()
            elif c["wrong"] == "array" and c["k"] % 2:
                a = np.empty(P.nc, dtype=object)
                for j in range(P.nc):
                    a[j] = q
                args[1] = a         # not two-dimensional
            elif c["wrong"] == "array" and c["k"] % 3 == 0:
                a = np.empty((P.nts, P.nc, 2), dtype=object)
                for i in np.ndindex(a.shape):
                    a[i] = q
                args[1] = a
    elif pos == "ctrls element":
        if isinstance(ctrls, np.ndarray):
            k, j = c["k"] % P.nts, c["j"] % P.nc
            ctrls = ctrls.copy()
            ctrls[k, j] = wrong(ctrls[k, j])
        elif P.p["tc"]:
            k, j = c["k"] % P.nts, c["j"] % P.nc
            rows = [list(r) for r in ctrls]
            rows[k][j] = wrong(rows[k][j])
            mk = tuple if c["ctrls"] in ("tuples", "mixed") else list
            rows = [mk(r) for r in rows]
            ctrls = tuple(rows) if c["ctrls"] == "tuples" else rows
        else:
            cl = list(ctrls)
            j = c["j"] % P.nc
            if c["wrong"] == "wrapped" and P.nc == 1:
                wrong = WRONG["dict"]   # else it is a list of lists
            cl[j] = wrong(cl[j])
            ctrls = tuple(cl) if c["ctrls"] == "tuple" else cl
        args[1] = ctrls
    elif pos == "ragged":
        q = flat(ctrls)[0]
        rows = [[q] * P.nc for _ in range(max(2, P.nts))]
        k = c["k"] % len(rows)
        rows[k] = [q] * (P.nc + 1 if c["j"] % 2 else max(1, P.nc - 1))
        if len(rows[k]) == P.nc:
            rows[k] = [q] * (P.nc + 1)
        args[1] = rows
    return pos


def check_kinds(c, rec):
    P = Prob(c["p"])
    way = c["way"]
    good = containers(c, P)
    s = snapshot(good)
    dyn = give("hand" if way == "again" else way, P, good)
    accepted(dyn, P, "well-formed problem given by " + way)
    same(s, good, way)
    bad = list(good)
    spoil(c, P, bad)
    what = "%s with %s as %s" % (way, c["pos"], c["wrong"])
    if c["pos"] == "ragged":
        what = way + " with rows of controls of different lengths"
    s = snapshot(bad)
    ok = TypeError
    if c["pos"] == "ctrls element" and P.p["tc"]:
        # numpy may refuse to store what is not an operator
        ok = (TypeError, ValueError)
    with nothing_computed() as hit:
        try:
            give(way, P, bad, dyn)
        except ok as e:
            expect(str(e), what + ": the error says nothing")
        except Exception as e:
            raise Violation("%s raises %r" % (what, e))
        else:
            raise Violation(what + " is accepted: %r"
                            % (bad[{"drift": 0, "initial": 2,
                                    "target": 3}.get(c["pos"], 1)],))
    expect(not hit, what + ": an evolution was computed first")
    same(s, bad, what)
    if way == "again":
        give(way, P, good, dyn)
        accepted(dyn, P, "well-formed problem given after an ill-formed one")
    rec.label(way, c["pos"], c["wrong"])


@st.composite
def kinds_case(draw):
    p = draw(gens.problem_cfg(max_ts=4, max_nc=3, dims=(2, 2, 3)))
    if draw(st.booleans()):
        p["prop"] = "DEF"
    uni = p["dyn"] == "UNIT" and p["fid"] in ("PSU", "SU") and \
        p["prop"] == "DEF"
    if p["fid"] == "TD" and p["prop"] == "DEF" and draw(st.booleans()):
        p["prop"] = "FRECHET"
    c = dict(p=p, way=draw(st.sampled_from(UNI if uni else WAYS)),
             drift=draw(st.sampled_from(["list", "tuple"])),
             ctrls=draw(st.sampled_from(
                 ["array", "lists", "tuples", "mixed"] if p["tc"] else
                 ["list", "tuple"])),
             pos=draw(st.sampled_from(
                 ["initial", "target", "drift", "drift element", "ctrls",
                  "ctrls element", "ctrls element", "ragged"])),
             wrong=draw(st.sampled_from(sorted(WRONG))),
             k=draw(st.integers(0, 9)), j=draw(st.integers(0, 9)))
    return c


# --------------------------------------------------------------------- options
U, V, T = errors.UsageError, ValueError, TypeError


def word(s, allowed):
    s = (s or "").strip() or "x"
    if s.upper() in allowed:
        s += "Z"
    return s


def opt_alg(c, P, a, o):
    o["alg"] = word(c["word"], ("GRAPE", "CRAB"))
    return U, "alg"


def opt_alg_none(c, P, a, o):
    o["alg"] = None
    return U, "alg"


def opt_dyn(c, P, a, o):
    o["dyn_type"] = word(c["word"], ("GEN_MAT", "UNIT", "SYMPL", "DEF"))
    return U, "dyn_type"


def opt_prop(c, P, a, o):
    o["prop_type"] = word(c["word"], ("DEF", "APPROX", "DIAG", "AUG_MAT",
                                      "FRECHET"))
    return U, "prop_type"


def opt_fid(c, P, a, o):
    o["fid_type"] = word(c["word"], ("DEF", "TDAPPROX", "TD_APPROX",
                                     "TRACEDIFF", "UNIT"))
    o.pop("fid_params", None)
    return U, "fid_type"


def opt_fmin(c, P, a, o):
    o["optim_method"] = ["FMIN", "fmin", "Fmin", ""][c["i"] % 4]
    return U, "optim_method"


def opt_pulse(c, P, a, o):
    o["init_pulse_type"] = word(c["word"], (
        "DEF", "RND", "LIN", "ZERO", "SINE", "SQUARE", "SAW", "TRIANGLE",
        "GAUSSIAN", "GAUSSIAN_EDGE", "RNDFOURIER", "RNDWAVES", "RNDWALK1",
        "RNDWALK2", "CRAB_FOURIER"))
    return V, "pulse_type"


def opt_ramp(c, P, a, o):
    o["ramping_pulse_type"] = word(c["word"], (
        "DEF", "RND", "LIN", "ZERO", "SINE", "SQUARE", "SAW", "TRIANGLE",
        "GAUSSIAN", "GAUSSIAN_EDGE", "RNDFOURIER", "RNDWAVES", "RNDWALK1",
        "RNDWALK2", "CRAB_FOURIER"))
    return V, "pulse_type"


def opt_phase(c, P, a, o):
    o.update(dyn_type="UNIT", fid_type="UNIT", prop_type="DEF",
             fid_params={"phase_option": word(c["word"], ("SU", "PSU"))})
    return U, "phase_option"


def opt_phase_dep(c, P, a, o):
    o.update(dyn_type="UNIT", fid_type="UNIT", prop_type="DEF",
             phase_option=word(c["word"], ("SU", "PSU")))
    o.pop("fid_params", None)
    return U, "phase_option"


def opt_pa(c, P, a, o):
    v = word(c["word"], ("PREOP", "POSTOP", "CUSTOM"))
    o["dyn_params"] = dict(o["dyn_params"], phase_application=[
        v, 1, 0.5, [v]][c["i"] % 4])
    return V, "phase application"


def opt_td_approx(c, P, a, o):
    # (of the other dynamics it is the default computer, which is kept)
    o.update(dyn_type="UNIT", fid_type="TRACEDIFF", prop_type="APPROX")
    o.pop("fid_params", None)
    if c["i"] % 2:
        o["alg"] = "CRAB"
    return U, "gradient"


def opt_time(c, P, a, o):
    o.pop("tau", None)
    o.pop("num_tslots", None)
    o.pop("evo_time", None)
    if c["i"] % 3 == 1:
        o["num_tslots"] = P.nts
    elif c["i"] % 3 == 2:
        o["evo_time"] = 1.0
    return U, "num_tslots"


def opt_dtype(c, P, a, o):
    o["dyn_params"] = dict(o["dyn_params"], oper_dtype=[
        list, "Qobj", float, np.matrix, "ndarray", 3][c["i"] % 6])
    return V, "oper_dtype"


def opt_sparse(c, P, a, o):
    o["dyn_params"] = dict(o["dyn_params"], sparse_eigen_decomp=True)
    return (V, "sparse") if P.n <= 2 else None


def opt_wavelen(c, P, a, o):
    kind = ["RNDFOURIER", "RNDWAVES"][c["i"] % 2]
    T_ = float(P.tau.sum())
    o["init_pulse_type"] = kind
    o["init_pulse_params"] = {"min_wavelen": T_ * (1.001 + c["x"])}
    return V, "wavelength"


def opt_wavelen2(c, P, a, o):
    T_ = float(P.tau.sum())
    o["init_pulse_type"] = "RNDWAVES"
    o["init_pulse_params"] = {"min_wavelen": T_ / 2, "max_wavelen":
                              T_ / 2 * (1 - c["x"] / 4)}
    return V, "wavelength"


def opt_bounds(c, P, a, o):
    # (DEF is a random pulse, of which both bounds matter)
    o["init_pulse_type"] = ["RND", "SINE", "LIN", "ZERO", "RNDWALK1"][
        c["i"] % 5]
    o["amp_lbound"], o["amp_ubound"] = 0.5 + c["x"], 0.25 + c["x"]
    return V, "bound"


def opt_noerr(c, P, a, o):
    o["fid_err_targ"] = None
    return U, "goal"


def opt_dumping(c, P, a, o):
    v = word(c["word"], ("NONE", "SUMMARY", "FULL", "CUSTOM"))
    k = ["dyn_params", "optim_params"][c["i"] % 2]
    wrong = c["i"] % 4 >= 2
    o[k] = dict(o.get(k) or {}, dumping=7 if wrong else v)
    return (T, "string") if wrong else (V, "level")


OPTS = {f.__name__: f for f in (
    opt_alg, opt_alg_none, opt_dyn, opt_prop, opt_fid, opt_fmin, opt_pulse,
    opt_ramp, opt_phase, opt_phase_dep, opt_pa, opt_td_approx, opt_time,
    opt_dtype, opt_sparse, opt_wavelen, opt_wavelen2, opt_bounds, opt_noerr,
    opt_dumping)}


def rejected(f, kind, word_, what, evo=True):
    """f() must raise kind and say word_ (None: anything)."""
    with nothing_computed() as hit:
        try:
            f()
        except kind as e:
            msg = str(e)
            expect(word_ is None or word_.lower() in msg.lower(),
                   "%s: the error %r does not name %r"
                   % (what, msg, word_))
        except Exception as e:
            raise Violation("%s raises %r, not %s"
                            % (what, e, getattr(kind, "__name__", kind)))
        else:
            raise Violation(what + " is accepted")
    expect(not evo or not hit, what + ": an evolution was computed first")


def check_options(c, rec):
    in_scratch(lambda tmp, cwd: _options(c, rec, cwd))


def _options(c, rec, cwd):
    P = Prob(c["p"])
    good = containers(c, P)
    o = options(P)
    o.update(max_iter=1, out_file_ext="x.txt")
    r = OPTS[c["opt"]](c, P, good, o)
    if r is None:
        rec.trivial()
        return
    kind, w = r
    s = snapshot(good)
    before = copy.deepcopy({k: v for k, v in o.items()})
    what = "%s=%r" % (c["opt"][4:], {k: v for k, v in o.items() if
                                     k not in ("tau", "log_level")})
    np.random.seed(c["i"])
    rejected(lambda: c14.quiet(cpo.optimize_pulse, *good, **o), kind, w,
             what)
    same(s, good, what)
    for k, v in before.items():
        expect(np.array_equal(v, o[k]) if isinstance(v, np.ndarray)
               else v == o[k], what + " changed option " + k)
    # (the goal is looked at last, when the initial amplitudes are saved)
    expect(not listing(cwd) or c["opt"] == "opt_noerr",
           what + " wrote " + str(listing(cwd)))
    rec.label(c["opt"])


@st.composite
def options_case(draw):
    p = draw(gens.problem_cfg(max_ts=4, max_nc=2, dims=(2, 2, 3)))
    if p["fid"] == "TD" and p["prop"] == "DEF":
        p["prop"] = "FRECHET"
    return dict(p=p, drift=draw(st.sampled_from(["list", "tuple"])),
                ctrls=draw(st.sampled_from(["list", "tuple", "lists"])),
                opt=draw(st.sampled_from(sorted(OPTS))),
                word=draw(st.one_of(
                    st.text("ABCDEFGHIJKLMNOPQRSTUVWXYZ_abc ", max_size=8),
                    st.sampled_from(["psu ", "SU2", "GRAPE2", "UNIT_", "prop",
                                     "preop2", "RND2", "DEFAULT", "ALL",
                                     "FULLY", "PSU1", "S", "TRACE"]))),
                i=draw(st.integers(0, 11)),
                x=draw(st.sampled_from([0.0, 0.125, 0.5, 2.0])))


# ----------------------------------------------------------------------- usage
def fresh(P, **kw):
    return optimizer(P, **kw)


def use_uninit(c, P, opt):
    dyn = opt.dynamics
    f = [lambda: dyn.save_amps("x.txt"), lambda: opt.run_optimization(),
         lambda: dyn.check_ctrls_initialized(),
         lambda: opt.init_optim(opt.termination_conditions)][c["i"] % 4]
    return f, U, "initiali"


def use_nodyn(c, P, opt):
    opt.dynamics.initialize_controls(np.array(P.amps))
    v = [None, "dynamics", 3][c["i"] % 3]

    def f():
        opt.dynamics = v
        opt.run_optimization()
    return f, U, "dynamics"


def use_noterm(c, P, opt):
    opt.dynamics.initialize_controls(np.array(P.amps))
    v = [None, {}, {"fid_err_targ": 1e-3}, 1e-3][c["i"] % 4]
    if c["j"]:
        opt.config.accuracy_factor = 1e3

    def f():
        opt.termination_conditions = v
        opt.run_optimization(*([v] if c["i"] % 2 else []))
    return f, U, "termination"


def use_notarget(c, P, opt):
    opt.dynamics.initialize_controls(np.array(P.amps))
    tc = termcond.TerminationConditions()
    tc.fid_err_targ = tc.fid_goal = None
    return (lambda: opt.run_optimization(tc)), U, "goal"


def use_computer(c, P, opt):
    dyn = opt.dynamics
    nm = ["prop_computer", "tslot_computer", "fid_computer"][c["i"] % 3]
    setattr(dyn, nm, [None, "DEF", dyn][c["i"] // 3 % 3])
    return (lambda: dyn.initialize_controls(np.array(P.amps))), U, nm


def use_phase(c, P, opt):
    fc = opt.dynamics.fid_computer
    if not isinstance(fc, fidcomp.FidCompUnitary):
        return None
    opt.dynamics.initialize_controls(np.array(P.amps))
    v = [word(c["word"], ("SU", "PSU")), None, "su", 1][c["i"] % 4]

    def f():
        fc.phase_option = v
    return f, U, "phase_option"


def use_pa(c, P, opt):
    dyn = opt.dynamics
    if c["j"]:
        dyn.initialize_controls(np.array(P.amps))
    v = [word(c["word"], ("PREOP", "POSTOP", "CUSTOM")), 3, ["preop"],
         dyn][c["i"] % 4]

    def f():
        dyn.phase_application = v
    return f, V, "phase application"


def use_dumping(c, P, opt):
    host = [opt, opt.dynamics][c["i"] % 2]
    if c["j"]:
        host.dumping = ["SUMMARY", "FULL", "CUSTOM"][c["i"] % 3]
    v = [word(c["word"], ("NONE", "SUMMARY", "FULL", "CUSTOM")), 1, True,
         ["FULL"]][c["i"] % 4]

    def f():
        host.dumping = v
    return f, (V if c["i"] % 4 == 0 else T), None


def use_dump_names(c, P, opt):
    host = [opt, opt.dynamics][c["i"] % 2]
    host.dumping = "SUMMARY"
    v = [None, 1, b"x", ["x"]][c["i"] % 4]

    def f():
        if c["j"]:
            host.dump.fname_base = v
        else:
            host.dump.summary_file = v
    return f, V, "string"


def use_hosts(c, P, opt):
    k = c["i"] % 4
    wrong = [None, 1, "x"][c["i"] // 4 % 3]
    if k == 0:
        return (lambda: qdump.DynamicsDump(
            opt if wrong is None else wrong)), T, "Dynamics"
    if k == 1:
        return (lambda: qdump.OptimDump(
            opt.dynamics if wrong is None else wrong)), T, "Optimizer"
    if k == 2:
        return (lambda: tslotcomp.EvoCompSummary() and
                qdump.EvoCompDumpItem(wrong)), T, "DynamicsDump"
    return (lambda: opt.dynamics.tslot_computer.dump_current()), \
        RuntimeError, "dump"


def use_text_stream(c, P, opt):
    host = [opt, opt.dynamics][c["i"] % 2]
    opt.dynamics.initialize_controls(np.array(P.amps))
    host.dumping = "FULL"

    def f():
        with open(os.path.join(os.environ["HOME"], "t.txt"), "w") as s:
            host.dump.writeout(s)
    return f, RuntimeError, "binary"


def use_td_approx(c, P, opt):
    import qutip_qtrl.propcomp as propcomp
    dyn = opt.dynamics
    dyn.prop_computer = propcomp.PropCompApproxGrad(dyn)
    return (lambda: fidcomp.FidCompTraceDiff(dyn)), U, "gradient"


def use_pulse(c, P, opt):
    dyn = opt.dynamics
    i = c["i"] % 4
    T_ = float(np.sum(dyn.tau))
    x = 1.001 + c["x"]
    if i == 0:
        return (lambda: pulsegen.create_pulse_gen(
            word(c["word"], c14.PULSE), dyn)), V, "pulse_type"
    if i == 1:
        pg = pulsegen.create_pulse_gen("RNDFOURIER", dyn)
        return (lambda: pg.gen_pulse(min_wavelen=T_ * x)), V, "wavelength"
    if i == 2:
        pg = pulsegen.create_pulse_gen("RNDWAVES", dyn)
        kw = [dict(min_wavelen=T_ * x, max_wavelen=T_ * x * 2),
              dict(min_wavelen=T_ / 2, max_wavelen=T_ / 2 / x),
              dict(min_wavelen=T_ / 2, max_wavelen=T_ / 2)][c["j"] % 3]
        return (lambda: pg.gen_pulse(**kw)), V, "wavelength"
    pg = pulsegen.create_pulse_gen(
        ["RND", "LIN", "ZERO", "SINE", "GAUSSIAN"][c["j"] % 5], dyn)
    pg.lbound, pg.ubound = 0.5, 0.5 - x

    def f():
        pg.init_pulse()
        pg.gen_pulse()
    return f, V, "bound"


def use_base(c, P, opt):
    dyn = opt.dynamics
    import qutip_qtrl.propcomp as propcomp
    i = c["i"] % 4
    if i == 0:
        f = fidcomp.FidelityComputer(dyn)
        return [f.get_fid_err, f.get_fid_err_gradient][c["j"] % 2], U, None
    if i == 1:
        return pulsegen.PulseGen(dyn=dyn).gen_pulse, U, None
    if i == 2:
        p = propcomp.PropagatorComputer(dyn)
        return [lambda: p.compute_prop_grad(0, 0),
                lambda: p.compute_diff_prop(0, 0, 1e-3)][c["j"] % 2], U, None
    return pulsegen.PulseGenCrab(dyn=dyn).gen_pulse, U, None


def use_crab_gens(c, P, opt):
    opt = fresh(P, alg="CRAB", optim_method="FMIN",
                prop_type="FRECHET" if P.fid == "TD" else
                P.p.get("prop", "DEF"), alg_params={"num_coeffs": 1})
    opt.dynamics.initialize_controls(np.array(P.amps))
    g = opt.pulse_generator
    rnd = pulsegen.create_pulse_gen("RND", opt.dynamics)
    wrong = [None, 3, g[:-1], list(g) + [g[0]], [rnd] * len(g),
             list(g[:-1]) + [rnd], list(g[:-1]) + [None], g[0]][c["i"] % 8]

    def f():
        opt.pulse_generator = wrong
        opt.run_optimization()
    return f, U, "pulse"


USES = {f.__name__: f for f in (
    use_uninit, use_nodyn, use_noterm, use_notarget, use_computer, use_phase,
    use_pa, use_dumping, use_dump_names, use_hosts, use_text_stream,
    use_td_approx, use_pulse, use_base, use_crab_gens)}

STATE = ("phase_application", "dumping", "num_tslots", "num_ctrls")


def check_usage(c, rec):
    in_scratch(lambda tmp, cwd: _usage(c, rec, cwd))


def _usage(c, rec, cwd):
    P = Prob(c["p"])
    opt = fresh(P)
    dyn = opt.dynamics
    r = USES[c["use"]](c, P, opt)
    if r is None:
        rec.trivial()
        return
    f, kind, w = r
    what = "%s %d" % (c["use"][4:], c["i"])
    lv = (opt.dumping, dyn.dumping, dyn.phase_application,
          getattr(dyn.fid_computer, "phase_option", None))
    rejected(f, kind, w, what)
    if c["use"] in ("use_phase", "use_pa", "use_dumping", "use_dump_names",
                    "use_pulse", "use_base", "use_hosts", "use_td_approx"):
        now = (opt.dumping, dyn.dumping, dyn.phase_application,
               getattr(dyn.fid_computer, "phase_option", None))
        expect(lv == now, "%s: settings were %s and are %s after the "
               "rejected call" % (what, lv, now))
    if c["use"] not in ("use_nodyn", "use_computer", "use_td_approx",
                        "use_crab_gens"):
        # the objects are still usable
        opt.dumping = dyn.dumping = None
        dyn.initialize_controls(np.array(P.amps))
        accepted(dyn, P, what + ", afterwards")
    expect(not listing(cwd), what + " wrote " + str(listing(cwd)))
    rec.label(c["use"])


@st.composite
def usage_case(draw):
    p = draw(gens.problem_cfg(max_ts=3, max_nc=2, dims=(2, 2, 3)))
    return dict(p=p, use=draw(st.sampled_from(sorted(USES))),
                word=draw(st.text("ABCDEFGHIJKLMNOPQRSTUVWXYZ_abc",
                                  min_size=1, max_size=8)),
                i=draw(st.integers(0, 47)), j=draw(st.integers(0, 5)),
                x=draw(st.sampled_from([0.0, 0.125, 0.5, 2.0])))


# ----------------------------------------------------------------------- grape
def check_grape(c, rec):
    P = Prob(c["p"])
    drift, ctrls, ini, tgt = operators(P)
    t = np.linspace(0, 1, c["M"])
    lim = {"one": [1.0], "three": [-1.0, 0.0, 1.0],
           "tuple": (1.0, 2.0, 3.0)}[c["lim"]]
    f = [grape.cy_grape_unitary, grape.grape_unitary,
         grape.grape_unitary_adaptive][c["f"]]
    if c["f"] == 2:
        kw = dict(u_limits=lim, interp_kind="linear")
    else:
        kw = dict(u_limits=lim)
    target = tgt if not P.p["state"] else None
    if target is None:
        rec.trivial()
        return
    s = snapshot([drift, ctrls, target])
    rejected(lambda: f(target, drift, ctrls, 2, t, **kw), V, "u_limits",
             "%s with u_limits=%r" % (f.__name__, lim))
    same(s, [drift, ctrls, target], f.__name__)
    rec.label(f.__name__)


@st.composite
def grape_case(draw):
    p = draw(gens.problem(dyns=("UNIT",), tdep=False, state=False,
                          dims=(2, 3)))
    return dict(p=p, M=draw(st.integers(3, 8)), f=draw(st.integers(0, 2)),
                lim=draw(st.sampled_from(["one", "three", "tuple"])))


PARTS = [Part("kinds", kinds_case(), check_kinds, 3000, 40000),
         Part("options", options_case(), check_options, 2500, 30000),
         Part("usage", usage_case(), check_usage, 2500, 30000),
         Part("grape", grape_case(), check_grape, 300, 2000)]
