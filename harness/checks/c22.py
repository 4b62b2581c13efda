"""Isolation of runs from each other and from the caller's objects."""
import copy

from hypothesis import strategies as st
import numpy as np
from qutip import Qobj

import gens
import runs
from build import arr, operators
from checks import c14
from common import close_s, expect, scale_of
from core import Part, Violation
import qutip_qtrl.grape as grape
import qutip_qtrl.pulsegen as pulsegen
from ref import Prob, evolve, fid_err

ID = "C22"
RULE = ("A case is a random control problem with options and a list of calls "
        "through random entry points that share their arguments (calls); or "
        "an optimiser with a list of runs, evaluations, initialisations, "
        "pulse generations and of overwriting of arrays handed over or "
        "obtained (history); or two optimisers used in turns, compared with "
        "each used alone (two); or calls of the GRAPE functions (grape). All "
        "arguments and everything obtained so far are compared with deep "
        "copies after every step. Non-trivial: at least two calls of which "
        "one changed the amplitudes.")


# ------------------------------------------------------------------- snapshots
def snap(x):
    if isinstance(x, Qobj):
        return ("Q", id(x), x.dims, x.full().copy())
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("O", x.shape, [snap(y) for y in x.ravel()])
        return ("A", x.dtype, x.copy())
    if isinstance(x, dict):
        return ("D", [(k, snap(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [snap(y) for y in x])
    if isinstance(x, (int, float, complex, str, bool, type(None),
                      np.number, np.bool_)):
        return ("V", repr(x))
    return ("I", id(x))


def diff(a, b, path=""):
    """Where two snapshots differ (None: nowhere)."""
    if a[0] != b[0]:
        return "%s: %s became %s" % (path, a[:2], b[:2])
    t = a[0]
    if t == "Q":
        if a[2] != b[2] or not np.array_equal(a[3], b[3], equal_nan=True):
            return "%s: operator\n%s\nbecame\n%s" % (path, a[3], b[3])
        return None
    if t == "A":
        if a[1] != b[1] or not np.array_equal(
                a[2], b[2], equal_nan=a[2].dtype.kind in "fc"):
            return "%s: array\n%s\nbecame\n%s" % (path, a[2], b[2])
        return None
    if t == "O":
        if a[1] != b[1]:
            return "%s: shape %s became %s" % (path, a[1], b[1])
        a, b = ("", a[2]), ("", b[2])
    if t == "D":
        ka, kb = [k for k, _ in a[1]], [k for k, _ in b[1]]
        if set(map(repr, ka)) != set(map(repr, kb)):
            return "%s: keys %s became %s" % (path, ka, kb)
        da = {repr(k): v for k, v in a[1]}
        for k, v in b[1]:
            r = diff(da[repr(k)], v, "%s[%r]" % (path, k))
            if r:
                return r
        return None
    if t in ("V", "I"):
        return None if a == b else "%s: %s became %s" % (path, a[1], b[1])
    if len(a[1]) != len(b[1]):
        return "%s: length %d became %d" % (path, len(a[1]), len(b[1]))
    for i, (x, y) in enumerate(zip(a[1], b[1])):
        r = diff(x, y, "%s[%d]" % (path, i))
        if r:
            return r
    return None


class Watch:
    """Objects that must stay as they are."""

    def __init__(self):
        self.items = []

    def add(self, name, obj):
        self.items.append((name, obj, snap(obj)))

    def check(self, after):
        for name, obj, s in self.items:
            d = diff(s, snap(obj))
            if d:
                raise Violation("%s changed %s %s" % (after, name, d))

    def drop(self, obj):
        self.items = [t for t in self.items if t[1] is not obj]


RES = ("fidelity", "initial_fid_err", "fid_err", "goal_achieved",
       "grad_norm_final", "grad_norm_min_reached", "num_iter",
       "max_iter_exceeded", "num_fid_func_calls", "max_fid_func_exceeded",
       "wall_time", "wall_time_limit_exceeded", "termination_reason", "time",
       "initial_amps", "final_amps", "evo_full_final", "evo_full_initial")


class View:
    """The attributes of a result as they are at present."""

    def __init__(self, res):
        self.res = res


def view(res):
    out = {k: getattr(res, k) for k in RES}
    out["stats"] = None if res.stats is None else dict(vars(res.stats))
    return out


class WatchResults(Watch):
    def __init__(self):
        Watch.__init__(self)
        self.results = []

    def add_result(self, name, res):
        self.results.append((name, res, snap(view(res))))

    def check(self, after):
        Watch.check(self, after)
        for name, res, s in self.results:
            d = diff(s, snap(view(res)))
            if d:
                raise Violation("%s changed %s %s" % (after, name, d))


# ----------------------------------------------------------------------- calls
def check_calls(c, rec):
    P = Prob(c["c"]["p"])
    w = WatchResults()
    orig = c14.quiet
    n = [0]

    def watching(f, *a, **kw):
        n[0] += 1
        nm = "the arguments of call %d (%s)" % (n[0], f.__name__)
        w.add(nm, list(a))
        w.add(nm, kw)
        out = orig(f, *a, **kw)
        w.check("call %d (%s)" % (n[0], f.__name__))
        return out

    moved, seen, ncalls = False, {}, 0
    c14.quiet = watching
    try:
        eps = c14.entry_points(c["c"], P)
        for o in c["calls"]:
            name, f = eps[o["ep"] % len(eps)]
            np.random.seed(o["seed"])
            res = f()
            ncalls += 1
            what = "call %d (%s)" % (n[0], name)
            w.check(what)
            if not np.isfinite(res.final_amps).all():
                rec.label("not finite")
                rec.trivial()
                return
            key = (o["ep"] % len(eps), o["seed"])
            moved = moved or not np.array_equal(res.initial_amps,
                                                res.final_amps)
            if key in seen:
                again(seen[key], res, name, f, o["seed"])
                rec.label("repeated")
            seen.setdefault(key, res)
            w.add_result("the result of " + what, res)
            rec.label(name)
    finally:
        c14.quiet = orig
    if ncalls < 2 or not moved:
        rec.trivial()


def again(a, b, name, f, seed):
    d = c14.differ(a, b)
    if d is None:
        return
    # rounding that depends on the alignment of memory is not the matter
    more = []
    for _ in range(3):
        np.random.seed(seed)
        more.append(f())
    if any(c14.differ(b, r) for r in more):
        return
    raise Violation("%s called again with the same arguments and random "
                    "state differs in %s: %s and %s" % ((name,) + d))


@st.composite
def calls_case(draw):
    c = draw(c14.agree_case())
    if c["alg"] == "CRAB":
        # dictionaries of options
        if c["ptype"] is None:
            c["ptype"] = "LIN"
        if c["pparams"] is None:
            c["pparams"] = draw(st.sampled_from([{}, {"log_level": 30}]))
            c["pparams"] = dict(c["pparams"])
    return dict(c=c, calls=draw(st.lists(
        st.fixed_dictionaries(dict(ep=st.integers(0, 9),
                                   seed=st.integers(0, 2))),
        min_size=2, max_size=6)))


# --------------------------------------------------------------------- history
ITEM = ("idx", "ctrl_amps", "dyn_gen", "prop", "prop_grad", "fwd_evo",
        "onwd_evo", "onto_evo")


def spoil(a, how):
    if how == "nan":
        a[...] = np.nan
    elif how == "big":
        a[...] = 1e6
    elif how == "zero":
        a[...] = 0
    else:
        a += 0.5


def check_history(c, rec):
    cc = c["c"]
    P, opt = runs.make(cc, dyn_params=None if not c["dump"] else None)
    dyn = opt.dynamics
    crab = cc["alg"] == "CRAB"
    if c["dump"]:
        dyn.dumping, opt.dumping = "FULL", c["dump"]
    w = WatchResults()
    given = []          # arrays handed over
    got = []            # arrays obtained
    amps0 = runs.start(cc, P, opt)
    cur = np.array(amps0)
    tau = np.array(dyn.tau, dtype=float)
    fixed = P.p["td"] or P.p["tc"]
    ndump = [0, 0, 0]
    nruns, moved = 0, False

    def hand(a):
        """An array to hand over; it is remembered for being overwritten."""
        given.append(a)
        return a

    for i, o in enumerate(c["ops"]):
        t = o["op"]
        what = "step %d (%s)" % (i, t)
        if t == "run":
            tc = runs.term_conds(o["tc"], None)
            if crab:
                # the run starts at the amplitudes of the generators
                cur = None
            elif cc.get("lb") is not None or cc.get("ub") is not None:
                cur = runs.clip(cc, cur)
                dyn.update_ctrl_amps(hand(cur.copy()))
            s = snap(vars(tc))
            before = None if cur is None else cur.copy()
            res = opt.run_optimization(tc)
            nruns += 1
            cur = np.array(res.final_amps)
            if not np.isfinite(cur).all():
                rec.trivial()
                return
            if before is not None:
                expect(np.array_equal(res.initial_amps, before), what +
                       ": started from\n%s\nthe amplitudes were\n%s"
                       % (res.initial_amps, before))
            moved = moved or not np.array_equal(res.initial_amps, cur)
            w.check(what)
            w.add_result("the result of " + what, res)
            got += [res.final_amps, res.initial_amps, res.time]
            del s
        elif t in ("err", "grad") and not crab:
            x = np.array(o["a"], dtype=float).reshape(-1)
            x = np.resize(x, cur.size)
            opt.init_optim(opt.termination_conditions)
            opt.wall_time_optimize_start = 1e18     # no wall time passes
            opt.termination_conditions.fid_err_targ = -1.0
            opt.termination_conditions.min_gradient_norm = -1.0
            opt.termination_conditions.max_fid_func_calls = 10 ** 9
            hand(x)
            if o["how"] == "2d":
                x = x.reshape(cur.shape)
            w.add("the amplitudes given in " + what, x)
            if t == "err":
                opt.fid_err_func_wrapper(x)
            else:
                g = opt.fid_err_grad_wrapper(x)
                w.add("the gradient obtained in " + what, g)
                got.append(g)
            cur = np.array(x, dtype=float).reshape(cur.shape)
        elif t == "init":
            a = hand(np.resize(np.array(o["a"], dtype=float), cur.shape))
            w.add("the amplitudes given in " + what, a)
            dyn.initialize_controls(a)
            cur = a.copy()
        elif t == "update":
            a = hand(np.resize(np.array(o["a"], dtype=float), cur.shape))
            w.add("the amplitudes given in " + what, a)
            dyn.update_ctrl_amps(a)
            cur = a.copy()
        elif t == "tau" and not crab:
            ta = hand(np.resize(np.array(o["tau"], dtype=float), P.nts))
            w.add("the durations given in " + what, ta)
            a = hand(cur.copy())
            dyn.tau = ta
            dyn.initialize_controls(a)
            tau = ta.copy()
        elif t == "pulse":
            pgs = opt.pulse_generator if crab else [opt.pulse_generator]
            pgs = pgs if isinstance(pgs, list) else [pgs]
            for pg in pgs:
                if pg is None or crab and nruns:
                    continue
                if not crab:
                    pg = pulsegen.create_pulse_gen(o["kind"], dyn)
                    pg.init_pulse()
                p = pg.gen_pulse()
                w.add("the pulse obtained in " + what, p)
                got.append(p)
                if not crab and o["kind"] not in ("RND", "RNDWALK1",
                                                  "RNDFOURIER"):
                    keep = np.array(p)
                    if o["how"] == "2d":
                        w.drop(p)
                        spoil(p, "add")
                    q = pg.gen_pulse()
                    expect(np.allclose(q, keep, rtol=1e-12, atol=1e-12),
                           "%s: the second pulse of the same generator is\n"
                           "%s\nthe first was\n%s" % (what, q, keep))
        elif t == "spoil":
            for a in given:
                w.drop(a)
                for j in range(len(w.items) - 1, -1, -1):
                    if isinstance(w.items[j][1], np.ndarray) and \
                            np.shares_memory(w.items[j][1], a):
                        del w.items[j]
                spoil(a, o["sp"])
            given = []
        elif t == "spoil got":
            w.results = [r for r in w.results]
            for a in got:
                w.drop(a)
                spoil(a, o["sp"])
            got = []
            w.results = []
        w.check(what)
        if c["dump"]:
            if dyn.dump is not None:
                for it in dyn.dump.evo_dumps[ndump[0]:]:
                    w.add("dump item %d" % it.idx,
                          {k: getattr(it, k) for k in ITEM})
                ndump[0] = len(dyn.dump.evo_dumps)
                for s in dyn.dump.evo_summary[ndump[1]:]:
                    w.add("evolution summary %d" % s.idx, vars(s))
                ndump[1] = len(dyn.dump.evo_summary)
            for s in opt.dump.iter_summary[ndump[2]:]:
                w.add("iteration summary %d" % s.idx, vars(s))
            ndump[2] = len(opt.dump.iter_summary)
        # what is computed now belongs to the current amplitudes
        expect(np.array_equal(dyn.ctrl_amps, cur), "%s: amplitudes are\n%s\n"
               "expected\n%s" % (what, dyn.ctrl_amps, cur))
        tt = np.array(dyn.tau, dtype=float)
        expect(np.allclose(tt, tau, rtol=1e-6), "%s: durations are %s, "
               "expected %s" % (what, tt, tau))
        want = np.concatenate([[0.0], np.cumsum(tt)])
        expect(np.allclose(dyn.time, want, rtol=1e-9, atol=1e-12),
               "%s: times are %s, expected %s" % (what, dyn.time, want))
        if o["look"] and runs.sane(P, tt, cur):
            ev, e = runs.reference(P, tt, cur)
            sc = scale_of(ev)
            if sc < 1e4:
                close_s(dyn.fid_computer.get_fid_err(), e,
                        what + ": fidelity error", 1e-8 * sc * sc)
        rec.label(t)
    del fixed
    if nruns + len(c["ops"]) < 3 or not moved:
        rec.trivial()


RUN_TC = st.fixed_dictionaries(dict(
    targ=st.sampled_from([-1.0, 0.01, 0.3]), min_grad=st.just(1e-8),
    max_iter=st.integers(1, 4), max_f=st.one_of(st.none(),
                                                st.integers(2, 12))))


@st.composite
def op(draw, nts, nc):
    t = draw(st.sampled_from(["run", "run", "run", "err", "grad", "init",
                              "update", "tau", "pulse", "spoil", "spoil",
                              "spoil got"]))
    o = dict(op=t, look=draw(st.booleans()))
    if t == "run":
        o["tc"] = draw(RUN_TC)
    elif t in ("err", "grad", "init", "update"):
        o["a"] = draw(gens.amplitudes(nts, nc))
        o["how"] = draw(st.sampled_from(["1d", "2d"]))
    elif t == "tau":
        o["tau"] = [x / 16.0 for x in draw(st.lists(
            st.integers(1, 8), min_size=nts, max_size=nts))]
    elif t == "pulse":
        o["kind"] = draw(st.sampled_from(
            ["RND", "LIN", "ZERO", "SINE", "SQUARE", "SAW", "TRIANGLE",
             "GAUSSIAN", "GAUSSIAN_EDGE", "RNDFOURIER", "RNDWALK1"]))
        o["how"] = draw(st.sampled_from(["1d", "2d"]))
    elif t.startswith("spoil"):
        o["sp"] = draw(st.sampled_from(["nan", "big", "zero", "add"]))
    return o


@st.composite
def history_case(draw):
    c = draw(runs.run_case(max_runs=1, max_ts=3, tcs=RUN_TC, units=0))
    p = c["p"]
    return dict(c=c, dump=draw(st.sampled_from([None, None, "FULL",
                                                "SUMMARY"])),
                ops=draw(st.lists(op(p["nts"], p["nc"]), min_size=3,
                                  max_size=9)))


# ----------------------------------------------------------------------- grape
def check_grape(c, rec):
    P = Prob(c["p"])
    drift, ctrls, ini, tgt = operators(P)
    del ini
    M, J = c["M"], P.nc
    times = np.linspace(0.0, c["T"], M)
    us = np.array(c["u"], dtype=float)[:J * M].reshape(J, M)
    w = Watch()
    outs = []
    for i, o in enumerate(c["calls"]):
        f = [grape.cy_grape_unitary, grape.grape_unitary,
             grape.grape_unitary_adaptive][o["f"]]
        kw = dict(u_start=us if o["us"] else None,
                  eps=0.1, phase_sensitive=o["ph"])
        if o["lim"]:
            kw["u_limits"] = [[-4.0, 4.0], [-0.5, 1.0]][o["lim"] - 1]
        if o["f"] == 2:
            kw["overlap_terminate"] = 2.0
        if o["f"] in (0, 1) and o["pen"]:
            kw["beta"] = 0.1
            if o["f"] == 0:
                kw["alpha"] = 0.1
        a = [tgt, drift, list(ctrls), o["R"], times]
        nm = "call %d (%s)" % (i, f.__name__)
        w.add("the arguments of " + nm, a)
        w.add("the options of " + nm, kw)
        np.random.seed(o["seed"])
        r = f(*a, **kw)
        w.check(nm)
        w.add("the result of " + nm, [r.u, r.U_f])
        if o["mut"]:
            # overwriting the initial pulse does not reach the result
            keep = us.copy()
            us += 0.25
            d = diff(w.items[-1][2], snap([r.u, r.U_f]))
            expect(d is None, "overwriting the initial pulse after %s changed "
                   "its result %s" % (nm, d))
            us[...] = keep
        outs.append(r)
        for i2, o2 in enumerate(c["calls"][:i]):
            if o2 == o:
                expect(np.allclose(outs[i2].u, r.u, rtol=1e-9, atol=1e-9),
                       "%s: pulse differs from that of call %d with the same "
                       "arguments" % (nm, i2))
                rec.label("repeated")
        rec.label(f.__name__)


@st.composite
def grape_case(draw):
    p = draw(gens.problem(dyns=("UNIT",), tdep=False, state=False,
                          dims=(2, 2, 3), max_nc=2))
    M = draw(st.integers(3, 7))
    call = st.fixed_dictionaries(dict(
        f=st.integers(0, 2), us=st.booleans(), ph=st.booleans(),
        lim=st.integers(0, 2), pen=st.booleans(), R=st.integers(2, 5),
        seed=st.integers(0, 1), mut=st.booleans()))
    return dict(p=p, M=M, T=draw(st.sampled_from([0.5, 1.0, 3.0])),
                u=draw(st.lists(st.integers(-16, 16).map(lambda x: x / 8.0),
                                min_size=2 * M, max_size=2 * M)),
                calls=draw(st.lists(call, min_size=1, max_size=4)))


# ------------------------------------------------- two problems at one time
def life(c, out):
    """Make an optimiser and use it, one step per iteration."""
    np.random.seed(c["c"]["seed"])
    cc = c["c"]
    P, opt = runs.make(cc, **c["kw"])
    dyn = opt.dynamics
    own = opt.termination_conditions
    yield
    cur = np.array(runs.start(cc, P, opt))
    crab = cc["alg"] == "CRAB"
    yield
    for o in c["ops"]:
        t = o["op"]
        np.random.seed(o["seed"])
        if t == "run":
            # (or the conditions given when the optimiser was made)
            tc = None if o["own"] else runs.term_conds(o["tc"], None)
            if not crab and (cc.get("lb") is not None or
                             cc.get("ub") is not None):
                dyn.update_ctrl_amps(runs.clip(cc, cur))
            if o["own"]:
                opt.termination_conditions = own
            res = opt.run_optimization(tc)
            cur = np.array(res.final_amps)
            out.append((t, [res.initial_amps, cur, res.fid_err,
                            res.initial_fid_err, res.time],
                        dict(n=res.num_iter, f=res.num_fid_func_calls,
                             why=str(res.termination_reason),
                             stats=res.stats is None)))
        elif t == "pulse":
            pg = pulsegen.create_pulse_gen(o["kind"], dyn)
            pg.lbound, pg.ubound = o["bnd"]
            pg.init_pulse()
            out.append((t, [pg.gen_pulse(), pg.gen_pulse()
                            if not o["kind"].startswith("RND") else 0.0], {}))
        elif t == "tau" and not crab:
            dyn.tau = np.resize(np.array(o["tau"], dtype=float), P.nts)
            dyn.initialize_controls(cur.copy())
            out.append((t, [dyn.tau, dyn.time, dyn.evo_time], {}))
        else:
            if not crab:
                cur = np.resize(np.array(o["a"], dtype=float),
                                cur.shape) * P.uamp
                if t == "init":
                    dyn.initialize_controls(cur)
                else:
                    dyn.update_ctrl_amps(cur)
            fc = dyn.fid_computer
            tau = np.array(dyn.tau, dtype=float)
            e = fc.get_fid_err()
            v = [e, dyn.full_evo.full(), dyn.onto_evo_target.full()]
            if t == "grad" and not crab:
                v.append(fc.get_fid_err_gradient())
            out.append((t, v, {}))
            if runs.sane(P, tau, dyn.ctrl_amps):
                ev, want = runs.reference(P, tau, dyn.ctrl_amps)
                sc = scale_of(ev)
                if sc < 1e4:
                    close_s(e, want, "%s: fidelity error" % t, 1e-8 * sc * sc)
        yield
    yield
    out.append(("settings", [], settings(opt)))


def settings(opt):
    """The plain public attributes of all parts of an optimiser."""
    out = {}
    dyn = opt.dynamics
    for nm, o in (("optimizer", opt), ("dynamics", dyn),
                  ("fidelity computer", dyn.fid_computer),
                  ("propagator computer", dyn.prop_computer),
                  ("timeslot computer", dyn.tslot_computer),
                  ("conditions", opt.termination_conditions),
                  ("configuration", opt.config)):
        for k in list(vars(o)) + ["phase_option", "log_level", "dumping"]:
            if k.startswith("_") or "time" in k or "wall" in k:
                continue
            v = getattr(o, k, None)
            if isinstance(v, (str, bool, int, type(None), type)):
                out[nm + "." + k] = v
            elif isinstance(v, dict) and k.endswith("options"):
                out[nm + "." + k] = repr(sorted(v.items()))
    return out


def same_life(a, b, what):
    for i, (x, y) in enumerate(zip(a, b)):
        for u, v in zip(x[1], y[1]):
            if np.shape(u) != np.shape(v) or not np.allclose(
                    u, v, rtol=1e-6, atol=1e-6 * max(1.0, np.max(np.abs(v))),
                    equal_nan=True):
                return "step %d (%s) %s gave\n%s\nbut alone\n%s" % (
                    i, x[0], what, u, v)
        if x[2] != y[2]:
            return "step %d (%s) %s gave %s, but alone %s" % (
                i, x[0], what, x[2], y[2])
    return None


def alone(c):
    out = []
    for _ in life(c, out):
        pass
    return out


def check_two(c, rec):
    lives = [c["A"], c["B"]]
    outs = [[], []]
    gens_ = [life(x, o) for x, o in zip(lives, outs)]
    live = [True, True]
    turns = list(c["turns"])
    while any(live):
        k = turns.pop(0) if turns else 0
        if not live[k]:
            k = 1 - k
        try:
            next(gens_[k])
        except StopIteration:
            live[k] = False
    for k in range(2):
        d = None
        for _ in range(3):
            # (rounding may depend on the alignment of memory)
            d = same_life(outs[k], alone(lives[k]),
                          "next to another optimiser")
            if d is None:
                break
        if d:
            raise Violation("optimiser %s: %s" % ("AB"[k], d))
    n = sum(1 for o in outs for x in o if x[0] == "run")
    rec.label("%d runs" % n, "same problem" if c["same"] else "two problems",
              "finite" if all(np.isfinite(np.sum(v)) for o in outs for x in o
                              for v in x[1]) else "not finite")
    if not all(outs) or not 0 < sum(c["turns"]) < len(c["turns"]):
        rec.trivial()


@st.composite
def life_case(draw, c):
    p = c["p"]
    op2 = op(p["nts"], p["nc"]).filter(lambda o: not o["op"].startswith(
        "spoil"))
    ops = draw(st.lists(op2, min_size=1, max_size=5))
    for o in ops:
        o["seed"] = draw(st.integers(0, 3))
        if o["op"] == "run":
            o["tc"] = dict(o["tc"], max_iter=min(2, o["tc"]["max_iter"]))
            o["own"] = draw(st.booleans())
        elif o["op"] == "pulse":
            o["bnd"] = draw(st.sampled_from([(-np.inf, np.inf), (-0.5, 0.25),
                                             (0.0, np.inf)]))
    kw = dict(fid_err_targ=draw(st.sampled_from([-1.0, 0.01, 0.3])),
              max_iter=draw(st.integers(1, 2)),
              min_grad=draw(st.sampled_from([1e-8, 0.3])))
    if c["alg"] == "GRAPE" and draw(st.integers(0, 2)) == 0:
        kw["method_params"] = draw(st.sampled_from(
            [{}, {"maxiter": 1}, {"disp_conv_msg": False}]
            if c["method"] in ("BFGS", "CG", "L-BFGS-B", "SLSQP") else
            [{}, {"disp_conv_msg": False}]))
    return dict(c=c, ops=ops, kw=kw)


@st.composite
def two_case(draw):
    mk = runs.run_case(max_runs=1, max_ts=3, tcs=RUN_TC, units=0, big=0)
    a = draw(mk)
    same = draw(st.booleans())
    b = draw(mk)
    if same:
        # the same problem with other options, or another of the same shape
        q = b["p"]
        b = copy.deepcopy(a)
        if draw(st.booleans()):
            b["p"]["cfg"] = q["cfg"]
        if draw(st.booleans()) and b["p"]["fid"] in ("PSU", "SU"):
            b["p"]["fid"] = {"PSU": "SU", "SU": "PSU"}[b["p"]["fid"]]
        if draw(st.booleans()):
            b["stats"] = not a["stats"]
        if draw(st.booleans()):
            b["p"]["amps"] = draw(gens.amplitudes(q and b["p"]["nts"],
                                                  b["p"]["nc"]))
        if draw(st.booleans()):
            b["p"]["tau"] = draw(gens.taus(b["p"]["nts"]))
    return dict(A=draw(life_case(a)), B=draw(life_case(b)), same=same,
                turns=draw(st.lists(st.integers(0, 1), min_size=4,
                                    max_size=12)))


PARTS = [Part("two", two_case(), check_two, 1500, 20000),
         Part("calls", calls_case(), check_calls, 1000, 10000),
         Part("history", history_case(), check_history, 2500, 30000),
         Part("grape", grape_case(), check_grape, 600, 6000)]
