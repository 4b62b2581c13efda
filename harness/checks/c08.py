"""Time grid under histories of assignments and through the entry points."""
import os

from hypothesis import strategies as st
import numpy as np
from qutip import Qobj, sigmax, sigmaz, qeye, basis

import qutip_qtrl.dynamics as qdyn
import qutip_qtrl.optimconfig as qconf
import qutip_qtrl.pulsegen as pulsegen
import qutip_qtrl.pulseoptim as cpo
from common import expect
from core import Part

ID = "C08"
RULE = ("history: a case is a list of assignments of number of slots, total "
        "time and durations, reads, timeslot and control initialisations on "
        "one Dynamics object, checked after each step against a model of the "
        "grid; non-trivial when at least two different setters were used. "
        "entry: a case is the time arguments of an entry point; non-trivial "
        "when there are at least two slots.")

TOL = 2e-6      # durations of equal slots are kept in single precision


class Grid:
    """The documented meaning of the three settings."""

    def __init__(self):
        self.n, self.T, self.tau = None, None, None

    def current(self):
        if self.tau is not None:
            return np.array(self.tau, dtype=float)
        n = 10 if self.n is None else self.n
        T = 1.0 if self.T is None else self.T
        return np.full(n, T / n)

    def set_n(self, n):
        self.T = self.total()
        self.n, self.tau = n, None

    def set_T(self, T):
        self.n = len(self.current()) if (
            self.tau is not None or self.n is not None) else None
        self.T, self.tau = T, None

    def tol(self):
        # given durations are kept as they are
        return TOL if self.tau is None else 1e-12

    def total(self):
        return None if self.tau is None and self.T is None else float(
            np.sum(self.tau) if self.tau is not None else self.T)


def check_grid(dyn, g, what, via=("n", "T", "tau", "time")):
    tau = g.current()
    n, T = len(tau), float(tau.sum())
    tol = g.tol()
    for v in via:
        if v == "n":
            expect(dyn.num_tslots == n, "%s: num_tslots %r, expected %d"
                   % (what, dyn.num_tslots, n))
        elif v == "T":
            expect(abs(float(dyn.evo_time) - T) <= tol * T,
                   "%s: evo_time %r, expected %r" % (what, dyn.evo_time, T))
        elif v == "tau":
            got = np.asarray(dyn.tau, dtype=float)
            expect(got.shape == (n,), "%s: tau has shape %s, expected %d "
                   "durations" % (what, got.shape, n))
            expect(np.abs(got - tau).max() <= tol * tau.max(),
                   "%s: tau %s, expected %s" % (what, got, tau))
        elif v == "time":
            dyn.num_tslots
            check_time(dyn.time, tau, what, tol)
    # mutual consistency, to the precision of the stored durations
    got = np.asarray(dyn.tau, dtype=float)
    t = np.asarray(dyn.time)
    expect(len(got) == dyn.num_tslots and len(t) == len(got) + 1 and
           t[0] == 0 and
           np.abs(np.diff(t) - got).max() <= 1e-12 * max(1.0, t[-1]) and
           abs(t[-1] - float(dyn.evo_time)) <= tol * t[-1],
           "%s: inconsistent grid: num_tslots=%r evo_time=%r tau=%s time=%s"
           % (what, dyn.num_tslots, dyn.evo_time, got, t))
    at = np.asarray(dyn.get_amp_times())
    expect(np.array_equal(at, t[:-1]), "%s: get_amp_times() %s but time %s"
           % (what, at, t))


def check_time(t, tau, what, tol=TOL):
    t = np.asarray(t)
    want = np.concatenate([[0.0], np.cumsum(tau)])
    expect(t.shape == want.shape and
           np.abs(t - want).max() <= tol * want[-1],
           "%s: time points %s, expected %s" % (what, t, want))


DYN = {"UNIT": qdyn.DynamicsUnitary, "GEN_MAT": qdyn.DynamicsGenMat,
       "SYMPL": qdyn.DynamicsSymplectic}


def check_history(c, rec):
    cfg = qconf.OptimConfig()
    cfg.log_level = 40
    params = {}
    g = Grid()
    for k, v in (c["params"] or {}).items():
        params[k] = v
        if k == "num_tslots":
            g.set_n(v)
        else:
            g.set_T(v)
    dyn = DYN[c["dyn"]](cfg, params) if params else DYN[c["dyn"]](cfg)
    if c["dyn"] == "SYMPL":
        d, cs = qeye(2), [qeye(2)]
        ini = tgt = qeye(2)
    else:
        d, cs, ini, tgt = sigmaz(), [sigmax(), sigmaz()], qeye(2), sigmax()
    if c["dyn"] == "UNIT":
        dyn.drift_ham, dyn.ctrl_ham = d, cs
    else:
        dyn.drift_dyn_gen, dyn.ctrl_dyn_gen = d, cs
    dyn.initial, dyn.target = ini, tgt
    setters = set(params)
    rec.label(c["dyn"])
    for i, o in enumerate(c["ops"]):
        t = o["op"]
        what = "step %d (%s)" % (i, t)
        rec.label(t)
        if t == "n":
            dyn.num_tslots = o["v"]
            g.set_n(o["v"])
            setters.add("num_tslots")
        elif t == "T":
            dyn.evo_time = o["v"]
            g.set_T(o["v"])
            setters.add("evo_time")
        elif t == "tau":
            v = list(o["v"])
            dyn.tau = v if o["as"] == "list" else np.array(v)
            g.tau = list(o["v"])
            setters.add("tau")
        elif t == "same":
            # assigning the present value has the effect of any other
            w = o["w"]
            setters.add({"n": "num_tslots", "T": "evo_time"}.get(w, w))
            if w == "n":
                dyn.num_tslots = dyn.num_tslots
                g.set_n(len(g.current()))
            elif w == "T":
                dyn.evo_time = dyn.evo_time
                x = g.total()
                g.set_T(1.0 if x is None else x)
            else:
                v = np.array(dyn.tau, dtype=float)
                dyn.tau = v.copy()
                g.tau = v.tolist()
        elif t == "nudge":
            # durations close to the present ones are other durations
            v = np.array(dyn.tau, dtype=float)
            if o["k"] is None:
                v *= o["f"]
            else:
                v[o["k"] % len(v)] *= o["f"]
            dyn.tau = v.copy()
            g.tau = v.tolist()
            setters.add("tau")
        elif t == "permute":
            # the same durations in another order
            v = np.array(dyn.tau, dtype=float)
            v = v[::-1] if o["k"] is None else np.roll(v, o["k"])
            dyn.tau = v.copy()
            g.tau = v.tolist()
            setters.add("tau")
        elif t == "edit":
            # single durations changed in place, then an initialisation
            v = dyn.tau
            v[o["k"] % len(v)] = o["v"]
            g.tau = np.array(v, dtype=float).tolist()
            setters.add("tau")
            if o["ctrls"]:
                dyn.initialize_controls(np.full((len(v), len(cs)), 0.5))
            else:
                dyn.init_timeslots()
            # (equal slots are added up in single precision)
            if v.dtype == np.float32:
                T = sum(g.tau)
                expect(abs(dyn.evo_time - T) <= TOL * T, "%s: evo_time %r, "
                       "expected %r" % (what, dyn.evo_time, T))
                check_time(dyn.time, np.array(g.tau), what)
                dyn.tau = np.array(g.tau)
            check_grid(dyn, g, what)
        elif t == "init":
            dyn.init_timeslots()
        elif t == "ctrls":
            n = len(g.current())
            dyn.initialize_controls(np.full((n, len(cs)), 0.5),
                                    init_tslots=o["it"])
            check_grid(dyn, g, what)
            dyn.compute_evolution()
            ev = dyn.full_evo
            expect(len(dyn.fwd_evo) == n + 1, "%s: forward evolution has %d "
                   "entries for %d slots" % (what, len(dyn.fwd_evo), n))
            expect(isinstance(ev, Qobj), "%s: full_evo" % what)
            if o["save"]:
                fn = "amps_%d.txt" % os.getpid()
                dyn.save_amps(fn)
                data = np.loadtxt(fn, ndmin=2)
                os.remove(fn)
                expect(data.shape == (n, len(cs) + 1), "%s: saved table has "
                       "shape %s" % (what, data.shape))
                want = np.concatenate([[0.0], np.cumsum(g.current())])[:-1]
                expect(np.abs(data[:, 0] - want).max() <=
                       1e-5 * max(1e-3, want[-1]),
                       "%s: saved times %s, expected %s"
                       % (what, data[:, 0], want))
        elif t == "pulse":
            # pulse generators take the grid from the dynamics
            pg = pulsegen.create_pulse_gen("LIN", dyn)
            pg.init_pulse()
            tau = g.current()
            expect(pg.num_tslots == len(tau) and
                   abs(pg.pulse_time - tau.sum()) <= TOL * tau.sum() and
                   np.abs(np.asarray(pg.tau, float) - tau).max()
                   <= TOL * tau.max(),
                   "%s: pulse generator grid num_tslots=%r pulse_time=%r "
                   "tau=%s, expected %s" % (what, pg.num_tslots,
                                            pg.pulse_time, pg.tau, tau))
        elif t == "read":
            check_grid(dyn, g, what, o["via"])
    check_grid(dyn, g, "at the end")
    if len(setters) < 2:
        rec.trivial()


dur = st.integers(1, 64).map(lambda i: i / 16.0)
tot = st.one_of(dur, st.integers(1, 9).map(float), st.integers(1, 9),
                st.sampled_from([1e-9, 1e-3, 0.1, 1 / 3, 1e3, 1e6]))
NUM = st.one_of(*[st.integers(1, 12)] * 12, st.sampled_from([25, 64, 100, 300]))
durs = st.one_of(*[st.lists(dur, min_size=1, max_size=7)] * 16, st.tuples(
    st.sampled_from([20, 64, 150]), st.integers(0, 999)).map(
        lambda v: (np.random.RandomState(v[1]).randint(1, 65, v[0]) /
                   16.0).tolist()))


@st.composite
def op(draw):
    t = draw(st.sampled_from(["n", "n", "T", "T", "tau", "tau", "init",
                              "same", "nudge", "permute", "edit", "ctrls", "pulse", "read",
                              "read"]))
    o = dict(op=t)
    if t == "n":
        o["v"] = draw(NUM)
    elif t == "T":
        o["v"] = draw(tot)
    elif t == "tau":
        o["v"] = draw(durs)
        o["as"] = draw(st.sampled_from(["array", "array", "list"]))
    elif t == "same":
        o["w"] = draw(st.sampled_from(["n", "T", "tau"]))
    elif t == "nudge":
        o["k"] = draw(st.sampled_from([None, 0, 1, 5]))
        o["f"] = draw(st.sampled_from([1 + 1e-7, 1 - 1e-5, 1 + 1e-9, 1.001]))
    elif t == "permute":
        o["k"] = draw(st.sampled_from([None, None, 1, 2]))
    elif t == "edit":
        o["k"], o["v"] = draw(st.integers(0, 5)), draw(dur)
        o["ctrls"] = draw(st.booleans())
    elif t == "ctrls":
        o["it"] = draw(st.booleans())
        o["save"] = draw(st.integers(0, 3)) == 0
    elif t == "read":
        o["via"] = draw(st.permutations(["n", "T", "tau", "time"]))[
            :draw(st.integers(1, 4))]
    return o


@st.composite
def history(draw):
    params = None
    if draw(st.integers(0, 3)) == 0:
        params = draw(st.fixed_dictionaries({}, optional=dict(
            num_tslots=NUM, evo_time=tot)))
    return dict(dyn=draw(st.sampled_from(["UNIT", "GEN_MAT", "SYMPL"])),
                params=params,
                ops=draw(st.lists(op(), min_size=1, max_size=14)))


# ------------------------------------------------------------- entry points
def check_entry(c, rec):
    kw = {}
    if c["tau"] is not None:
        kw["tau"] = np.array(c["tau"])
        tau = kw["tau"].copy()
    if c["n"] is not None:
        kw["num_tslots"], kw["evo_time"] = c["n"], c["T"]
        if c["tau"] is None:
            tau = np.full(c["n"], c["T"] / c["n"])
    rec.label(c["fn"], "tau" if c["tau"] is not None else "n,T")
    unit = c["fn"] in ("optimize_pulse_unitary", "opt_pulse_crab_unitary")
    crab = "crab" in c["fn"]
    a = [sigmaz(), [sigmax()], qeye(2), sigmax()]
    if c["state"]:
        a[2], a[3] = basis(2, 0), basis(2, 1)
    if not unit and c["fn"] != "create_pulse_optimizer":
        kw["dyn_type"] = "UNIT"
    elif c["fn"] == "create_pulse_optimizer":
        kw["dyn_type"] = c["dyn"]
        if c["dyn"] == "SYMPL":
            a = [qeye(2), [qeye(2)], qeye(2), qeye(2)]
    kw["log_level"] = 40
    if c["fn"] == "create_pulse_optimizer":
        opt = cpo.create_pulse_optimizer(*a, **kw)
    else:
        kw["max_iter"] = 1
        if crab:
            kw["num_coeffs"] = 1
        np.random.seed(3)
        res = getattr(cpo, c["fn"])(*a, **kw)
        opt = res.optimizer
        check_time(res.time, tau, "OptimResult.time")
        for nm in ("initial_amps", "final_amps"):
            expect(getattr(res, nm).shape == (len(tau), 1), "%s has shape %s"
                   % (nm, getattr(res, nm).shape))
    g = Grid()
    if c["tau"] is None:
        g.n, g.T = c["n"], c["T"]
    else:
        g.tau = tau
    check_grid(opt.dynamics, g, c["fn"])
    pgs = opt.pulse_generator
    for pg in (pgs if isinstance(pgs, list) else [pgs]):
        expect(pg.num_tslots == len(tau) and
               abs(pg.pulse_time - tau.sum()) <= TOL * tau.sum() and
               np.abs(np.asarray(pg.tau, float) - tau).max()
               <= TOL * tau.max(),
               "pulse generator grid num_tslots=%r pulse_time=%r tau=%s, "
               "expected %s" % (pg.num_tslots, pg.pulse_time, pg.tau, tau))
    if len(tau) < 2:
        rec.trivial()


@st.composite
def entry(draw):
    c = dict(fn=draw(st.sampled_from([
        "create_pulse_optimizer", "create_pulse_optimizer", "optimize_pulse",
        "optimize_pulse_unitary", "opt_pulse_crab",
        "opt_pulse_crab_unitary"])), tau=None, n=None, T=None,
        state=draw(st.booleans()),
        dyn=draw(st.sampled_from(["UNIT", "GEN_MAT", "SYMPL"])))
    if draw(st.booleans()):
        c["tau"] = draw(durs)
    if c["tau"] is None or draw(st.integers(0, 4)) == 0:
        c["n"], c["T"] = draw(NUM), draw(tot.filter(
            lambda x: 1e-2 <= x <= 1e2))
    return c


PARTS = [Part("history", history(), check_history, 8000, 100000),
         Part("entry", entry(), check_entry, 600, 8000)]
