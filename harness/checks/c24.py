"""Symmetries of control problems."""
import copy

from hypothesis import strategies as st
import numpy as np

import gens
import ref
from build import arr, dynamics
from common import expect, grad_tol, scale_of
from core import Part, Violation
from gens import mat
from ref import Prob, evolve, omega_ref

ID = "C24"
RULE = ("A case is a random control problem and one to three of its "
        "symmetries (change of basis, order and scale of the controls, "
        "amplitudes moved to the drift, unused controls, units of time, "
        "energy offset, phases, idle subsystem, complex conjugation, time "
        "reversal, initial operator moved to the target, another dynamics "
        "type), applied one after the other. The error, gradient and "
        "evolution the code gives for the changed problem must be those it "
        "gives for the original one, carried over. Non-trivial: the gradient "
        "has an entry above 1e-6.")


class Pair:
    """The changed problem, and how results are carried over."""

    def __init__(self, P):
        P = copy.copy(P)
        P.p = dict(P.p)
        P.drift = [np.array(a, dtype=complex) for a in P.drift]
        P.ctrls = [[np.array(a, dtype=complex) for a in r] for r in P.ctrls]
        P.initial = np.array(P.initial, dtype=complex)
        P.target = np.array(P.target, dtype=complex)
        P.amps = np.array(P.amps)
        P.tau = np.array(P.tau)
        # durations are given one by one (equal ones are single precision)
        P.equal = False
        self.P = P
        self.err = lambda e: e
        self.grad = lambda g: g
        self.full = lambda u: u

    def then(self, **kw):
        for k, f in kw.items():
            old = getattr(self, k)
            if old is None:
                continue
            setattr(self, k, lambda x, f=f, old=old: f(old(x)))

    def gens(self, f):
        P = self.P
        P.drift = [f(a) for a in P.drift]
        P.ctrls = [[f(a) for a in r] for r in P.ctrls]


def op_like(P, f_op, f_ket):
    f = f_ket if P.p["state"] else f_op
    P.initial, P.target = f(P.initial), f(P.target)


def basis(s, c):
    P = s.P
    if P.dyn == "SYMPL":
        # exchange of the modes
        n = P.n // 2
        p = np.random.RandomState(c["i"]).permutation(n)
        W = np.kron(np.eye(n)[p], np.eye(2))
    else:
        W = mat(c["u"][str(P.n)]) if str(P.n) in c["u"] else None
        if W is None:
            return False
    V = W.conj().T
    s.gens(lambda a: W @ a @ V)
    op_like(P, lambda a: W @ a @ V, lambda a: W @ a)
    s.then(full=(lambda u: W @ u) if P.p["state"] else
           (lambda u: W @ u @ V))
    # composite dimensions mean nothing afterwards, but must not hurt


def order(s, c):
    P = s.P
    p = np.random.RandomState(c["i"]).permutation(P.nc)
    P.ctrls = [[r[k] for k in p] for r in P.ctrls]
    P.amps = P.amps[:, p]
    s.then(grad=lambda g: g[:, p])


def control_units(s, c):
    P = s.P
    f = np.array([(2.0, 0.5, -1.0, 3.0)[(c["i"] >> (2 * j)) % 4]
                  for j in range(P.nc)])
    P.ctrls = [[a * f[j] for j, a in enumerate(r)] for r in P.ctrls]
    P.amps = P.amps / f
    s.then(grad=lambda g: g * f)


def to_drift(s, c):
    P = s.P
    b = np.array([(0.5, -1.0, 0.0, 2.0)[(c["i"] >> (2 * j)) % 4]
                  for j in range(P.nc)])
    if P.p["tc"]:
        P.drift = [P.drift[k if P.p["td"] else 0] + sum(
            b[j] * P.C(k, j) for j in range(P.nc)) for k in range(P.nts)]
        P.p["td"] = True
    else:
        P.drift = [a + sum(b[j] * P.C(0, j) for j in range(P.nc))
                   for a in P.drift]
    P.amps = P.amps - b


def unused(s, c):
    P = s.P
    at = c["i"] % (P.nc + 1)
    z = np.zeros_like(P.drift[0])
    P.ctrls = [list(r[:at]) + [z] + list(r[at:]) for r in P.ctrls]
    P.amps = np.insert(P.amps, at, 0.75, axis=1)
    P.nc += 1
    s.then(grad=lambda g: np.insert(g, at, 0.0, axis=1))


def slot_amplitudes(s, c):
    """The drift of every slot and its controls, all given per slot."""
    P = s.P
    P.drift = [P.drift[k if P.p["td"] else 0] for k in range(P.nts)]
    P.ctrls = [[P.C(k, j) for j in range(P.nc)] for k in range(P.nts)]
    P.p.update(td=True, tc=True)


def time_units(s, c):
    f = (2.0, 0.5, 3.0, 1024.0, 1 / 1024.0)[c["i"] % 5]
    s.gens(lambda a: a * f)
    s.P.tau = s.P.tau / f


def energy(s, c):
    P = s.P
    if P.dyn != "UNIT" or P.fid != "PSU":
        return False
    e = (c["i"] % 9 - 4) / 2.0
    P.drift = [a + e * np.eye(P.n) for a in P.drift]
    T = P.tau.sum()
    s.then(full=lambda u: np.exp(-1j * e * T) * u)


def phases(s, c):
    P = s.P
    if P.dyn == "SYMPL":
        return False
    x, y = np.exp(1j * c["i"]), np.exp(0.3j * c["i"])
    if P.fid != "PSU":
        y = x
    elif c["i"] % 4:
        # the overlap gets a special phase, or nearly so
        i = c["i"] // 4
        o = ref.overlap(P, evolve(P, np.array(P.tau))["full"])
        y = x * np.exp(1j * (np.angle(o) + (i // 8 % 4) * np.pi / 2 + (
            0.0, 1e-2, 1e-3, 1e-4, 1e-5, 1e-8, -3e-4, -1e-12)[i % 8]))
    P.initial, P.target = x * P.initial, y * P.target
    s.then(full=lambda u: x * u)


def idle(s, c):
    P = s.P
    if P.n > 3 or P.dyn == "SYMPL":
        return False
    m = 2
    one = np.eye(m)
    s.gens(lambda a: np.kron(a, one))
    if P.p["state"]:
        f = lambda a: np.kron(a, np.eye(m)[:, :1])
        if P.fid == "TD" and P.p.get("scale") is None:
            s.then(err=lambda e: e / m, grad=lambda g: g / m)
    else:
        f = lambda a: np.kron(a, one)
        if P.fid == "TD" and P.p.get("scale") is not None:
            s.then(err=lambda e: e * m, grad=lambda g: g * m)
    P.initial, P.target = f(P.initial), f(P.target)
    P.n *= m
    P.p["n"] = P.n
    P.p["dims"] = list(P.p["dims"]) + [m]
    s.then(full=f)


def conjugate(s, c):
    P = s.P
    if P.dyn == "SYMPL":
        return False
    s.gens((lambda a: -a.conj()) if P.dyn == "UNIT" else
           (lambda a: a.conj()))
    op_like(P, np.conj, np.conj)
    s.then(full=np.conj)


def reverse(s, c):
    """Backwards in time from the target to the initial operator."""
    P = s.P
    if P.dyn != "UNIT":
        return False
    if not P.p["state"]:
        for a in (P.initial, P.target):
            if not np.allclose(a.conj().T @ a, np.eye(P.n), atol=1e-13):
                return False
    if P.p["td"]:
        P.drift = P.drift[::-1]
    if P.p["tc"]:
        P.ctrls = P.ctrls[::-1]
    s.gens(lambda a: -a)
    P.tau, P.amps = P.tau[::-1].copy(), P.amps[::-1].copy()
    ini, tgt = P.initial, P.target
    P.initial, P.target = tgt, ini
    s.then(grad=lambda g: g[::-1])
    # U' = U^dag, applied to the target; not a function of U applied to the
    # initial state
    if P.p["state"]:
        s.full = None
    else:
        s.then(full=lambda u: ini @ u.conj().T @ tgt)


def to_target(s, c):
    """U I near T or U near T I^dag."""
    P = s.P
    if P.p["state"] or P.dyn != "UNIT" or not np.allclose(
            P.initial.conj().T @ P.initial, np.eye(P.n), atol=1e-13):
        return False
    ini = P.initial
    P.target = P.target @ ini.conj().T
    P.initial = np.eye(P.n, dtype=complex)
    s.then(full=lambda u: u @ ini.conj().T)


def as_general(s, c):
    """The same evolution with its generators given literally."""
    P = s.P
    if P.fid != "TD":
        return False
    if P.dyn == "UNIT":
        s.gens(lambda a: -1j * a)
    elif P.dyn == "SYMPL":
        om = omega_ref(P.n // 2)
        s.gens(lambda a: -a @ om)
    else:
        return False
    P.dyn = P.p["dyn"] = "GEN_MAT"
    if P.p.get("prop") == "DIAG":
        P.p["prop"] = "DEF"


def as_trace_difference(s, c):
    """For unitary targets the phase sensitive error is the trace difference
    (with the default factor, for gates)."""
    P = s.P
    if P.fid != "SU" or P.dyn != "UNIT":
        return False
    if P.p["state"]:
        for a in (P.initial, P.target):
            if not np.isclose(np.linalg.norm(a), 1, atol=1e-13):
                return False
        P.p["scale"] = 0.5
    else:
        for a in (P.initial, P.target):
            if not np.allclose(a.conj().T @ a, np.eye(P.n), atol=1e-13):
                return False
    P.fid = P.p["fid"] = "TD"


SYMS = dict(basis=basis, order=order, control_units=control_units,
            to_drift=to_drift, unused=unused, slots=slot_amplitudes,
            time_units=time_units, energy=energy, phases=phases, idle=idle,
            conjugate=conjugate, reverse=reverse, to_target=to_target,
            as_general=as_general, as_td=as_trace_difference)


def evaluate(P):
    dyn = dynamics(P)
    e = float(dyn.fid_computer.get_fid_err())
    g = np.array(dyn.fid_computer.get_fid_err_gradient())
    return e, g, arr(dyn.full_evo), np.array(dyn.tau, dtype=float)


def check(c, rec):
    s = Pair(Prob(c["p"]))
    P0 = copy.deepcopy(s.P)
    done = []
    for q in c["syms"]:
        if SYMS[q["name"]](s, q) is not False:
            done.append(q["name"])
    P = s.P
    P.p.update(c["over"])
    if P.dyn != "UNIT" and P.p.get("prop") == "DIAG":
        P.p["prop"] = "DEF"
    e0, g0, u0, tau0 = evaluate(P0)
    e1, g1, u1, tau1 = evaluate(P)
    ev0 = evolve(P0, tau0, grads=True)
    ev1 = evolve(P, tau1, grads=True)
    sc = max(scale_of(ev0), scale_of(ev1)) * max(
        1.0, np.linalg.norm(P.target), np.linalg.norm(P0.target))
    if not sc < 1e5:
        rec.label("huge, not compared")
        rec.trivial()
        return
    f = max(1.0, P.p.get("scale") or 1.0, P0.p.get("scale") or 1.0)
    w = "+".join(done) + ": "
    want = s.err(e0)
    expect(abs(e1 - want) <= 1e-9 * sc ** 2 * f, w + "error %r, carried over "
           "from the original problem %r" % (e1, want))
    if s.full is not None:
        want = s.full(u0)
        expect(want.shape == u1.shape and np.abs(want - u1).max() <=
               1e-9 * sc, w + "evolution\n%s\ncarried over from the original "
               "problem\n%s" % (u1, want))
    rg = ref.gradient(P0, ev0)
    if rg is None or ref.gradient(P, ev1) is None or (
            P0.fid in ("PSU", "SU") and e0 < 1e-10):
        rec.label("not differentiable")
        rec.trivial()
    else:
        t0, t1 = grad_tol(P0, ev0, tau0), grad_tol(P, ev1, tau1)
        if P0.fid == "PSU":
            x = max(1.0, 1e-3 / abs(ref.overlap(P0, ev0["full"])))
            t0, t1 = t0 * x, t1 * x
        want = s.grad(g0)
        tol = t1 + np.abs(s.grad(np.full_like(g0, t0)))
        if want.shape != g1.shape or not (np.abs(want - g1) <= tol).all():
            raise Violation(w + "gradient\n%s\ncarried over from the "
                            "original problem\n%s" % (g1, want))
        if np.abs(g0).max() < 1e-6:
            rec.trivial()
    rec.label(*done)
    rec.label(P0.dyn, "fid=" + P0.fid, "state" if P0.p["state"] else "op")
    if not done:
        rec.trivial()


@st.composite
def strat(draw):
    p = draw(gens.problem_cfg(max_ts=4, dims=(2, 2, 3, 4), open_fid=True, big=60, big_kw=dict(huge=True)))
    names = sorted(SYMS)
    if p["dyn"] == "SYMPL":
        names = ["basis", "order", "control_units", "to_drift", "unused",
                 "slots", "time_units", "as_general"]
    elif p["dyn"] == "GEN_MAT":
        for n in ("energy", "reverse", "to_target", "as_general", "as_td"):
            names.remove(n)
    if p["fid"] == "PSU":
        names += ["phases"] * 3
    syms = []
    for _ in range(draw(st.integers(1, 3))):
        n = draw(st.sampled_from(names))
        q = dict(name=n, i=draw(st.integers(0, 255)))
        if n == "basis":
            q["u"] = {str(p["n"]): draw(gens.unitary(p["n"]))}
            if p["n"] <= 3:
                q["u"][str(2 * p["n"])] = draw(gens.unitary(2 * p["n"]))
        syms.append(q)
    over = {}
    if draw(st.booleans()):
        over["cfg"] = draw(gens.config())
    return dict(p=p, syms=syms, over=over)


PARTS = [Part("problems", strat(), check, 5000, 60000)]
