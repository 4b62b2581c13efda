"""Structure preserved by the evolutions."""
import copy
import logging
import re

from hypothesis import strategies as st
import numpy as np
import qutip
from qutip import Qobj

import gens
from build import arr, dynamics, operators, optimizer
from common import close, expect
from core import Part, Violation
from ref import Prob, evolve, omega_ref

ID = "C07"
RULE = ("A case is a random unitary, symplectic or Lindblad control problem, a "
        "unitarity-check scenario with Hermitian and non-Hermitian slots, or a "
        "problem whose slots are split. Non-trivial: some propagator differs "
        "from the identity by more than 1e-3 (split: a slot really split; "
        "unitarity check: at least two slots).")


def busy(props, rec):
    if max(np.abs(u - np.eye(len(u))).max() for u in props) < 1e-3:
        rec.trivial()


def check_unit(p, rec):
    P = Prob(p)
    dyn = dynamics(P)
    dyn.compute_evolution()
    props = [arr(q) for q in dyn.prop]
    for k, u in enumerate(props):
        d = np.abs(u @ u.conj().T - np.eye(P.n)).max()
        expect(d < 1e-9, "propagator %d is not unitary (by %g)" % (k, d))
    for k, f in enumerate(dyn.fwd_evo):
        a = arr(f)
        if p["state"]:
            n0, n1 = np.linalg.norm(P.initial), np.linalg.norm(a)
            expect(abs(n0 - n1) < 1e-9, "norm %r became %r after slot %d"
                   % (n0, n1, k))
        else:
            g = a.conj().T @ a - P.initial.conj().T @ P.initial
            expect(np.abs(g).max() < 1e-9, "evolution %d is not unitary" % k)
    if not p["state"]:
        # the evolution is invertible by the reversed pulse
        q = copy.deepcopy(p)
        q["drift"] = [{"s": m["s"], "re": [-x for x in m["re"]],
                       "im": [-x for x in m["im"]], "d": m.get("d", 1)}
                      for m in reversed(p["drift"])]
        q["ctrls"] = [r for r in reversed(p["ctrls"])]
        q["amps"] = [[-x for x in r] for r in reversed(p["amps"])]
        tau = [float(t) for t in reversed(np.array(dyn.tau, float))]
        q["tau"] = tau
        q["initial"] = gens.enc(arr(dyn.full_evo))
        Q = Prob(q)
        Q.tau = np.array(tau)
        d2 = dynamics(Q)
        d2.compute_evolution()
        close(d2.full_evo, P.initial, 1.0, "evolution undone by the reversed "
              "and negated pulse", 1e-6)
    rec.label("prop=" + p["prop"], "state" if p["state"] else "op")
    busy(props, rec)


def check_sympl(p, rec):
    from qutip_qtrl.symplectic import calc_omega

    P = Prob(p)
    dyn = dynamics(P)
    dyn.compute_evolution()
    om = omega_ref(P.n // 2)
    expect(np.array_equal(np.asarray(calc_omega(P.n // 2)), om),
           "calc_omega(%d)" % (P.n // 2))
    expect(np.array_equal(arr(dyn.omega), om), "Dynamics omega %s"
           % arr(dyn.omega))
    props = [arr(q) for q in dyn.prop]
    for k, u in enumerate(props):
        s = max(1.0, np.linalg.norm(u)) ** 2
        d = max(np.abs(u @ om @ u.T - om).max(),
                np.abs(u.T @ om @ u - om).max())
        expect(d < 1e-10 * s, "propagator %d does not preserve the symplectic "
               "form (by %g, scale %g)" % (k, d, s))
    s = 1.0
    for u in props:
        s *= max(1.0, np.linalg.norm(u, 2)) ** 2
    f = arr(dyn.full_evo)
    d = np.abs(f @ om @ f.T - P.initial @ om @ P.initial.T)
    ini = np.linalg.norm(P.initial) ** 2
    if np.abs(P.initial @ om @ P.initial.T - om).max() < 1e-9:
        d = np.abs(f @ om @ f.T - om).max()
        expect(d < 1e-9 * s * max(1, ini), "full evolution does not preserve "
               "the symplectic form (by %g)" % d)
    rec.label("preop" if p.get("preop") else "postop", "n=%d" % P.n,
              "prop=" + p["prop"])
    busy(props, rec)


def check_omega(n, rec):
    from qutip_qtrl.symplectic import calc_omega

    o = np.asarray(calc_omega(n))
    expect(o.shape == (2 * n, 2 * n) and np.array_equal(o, omega_ref(n)),
           "calc_omega(%d) is\n%s" % (n, o))


def check_lindblad(p, rec):
    import qutip_qtrl.pulseoptim as cpo

    n = p["n"]
    H0 = Qobj(gens.mat(p["H0"]))
    cs = [Qobj(gens.mat(c)) * 0.5 for c in p["c"]]
    L0 = qutip.liouvillian(H0, cs)
    Lc = [qutip.liouvillian(Qobj(gens.mat(h))) for h in p["Hc"]]
    nts = p["nts"]
    if p["vec"]:
        r0 = gens.mat(p["rho"])
        r0 = r0 @ r0.conj().T
        r0 = r0 / np.trace(r0) if np.trace(r0) else np.eye(n) / n
        ini = qutip.operator_to_vector(Qobj(r0))
        tgt = qutip.operator_to_vector(Qobj(np.eye(n) / n))
    else:
        ini = qutip.to_super(qutip.qeye(n))
        tgt = qutip.to_super(qutip.qeye(n))
    kw = dict(dyn_params={})
    if p["dtype"]:
        kw["dyn_params"]["oper_dtype"] = Qobj if p["dtype"] == "Q" \
            else np.ndarray
    if p["mem"]:
        kw["dyn_params"]["memory_optimization"] = p["mem"]
    nrm = L0.norm("fro") + sum(
        abs(np.array(p["amps"])).max() * c.norm("fro") for c in Lc)
    T = min(p["T"], 20.0 / max(nrm, 1e-9))
    opt = cpo.create_pulse_optimizer(
        L0, Lc, ini, tgt, num_tslots=nts, evo_time=T,
        dyn_type=p["dyn"], prop_type=p["prop"], fid_type="TRACEDIFF",
        log_level=40, **kw)
    dyn = opt.dynamics
    dyn.initialize_controls(np.array(p["amps"]))
    dyn.compute_evolution()
    vid = qutip.operator_to_vector(qutip.qeye(n)).full().conj().T
    x = gens.mat(p["rho"])
    rho = x @ x.conj().T
    rho = rho / np.trace(rho) if abs(np.trace(rho)) > 0 else np.eye(n) / n
    v = qutip.operator_to_vector(Qobj(rho)).full()
    props = [arr(q) for q in dyn.prop]
    full = np.eye(n * n)
    for k, u in enumerate(props):
        d = np.abs(vid @ u - vid).max()
        expect(d < 1e-9 * max(1, np.linalg.norm(u)),
               "propagator %d does not preserve the trace (by %g)" % (k, d))
        v = u @ v
        r = v.reshape((n, n), order="F")
        d = np.abs(r - r.conj().T).max()
        expect(d < 1e-9, "state after slot %d is not Hermitian (by %g)"
               % (k, d))
        w = np.linalg.eigvalsh((r + r.conj().T) / 2).min()
        expect(w > -1e-8, "state after slot %d has eigenvalue %g" % (k, w))
        full = u @ full
    if p["vec"]:
        close(dyn.full_evo, full @ ini.full(), 1.0, "final state")
    else:
        close(dyn.full_evo, full, np.linalg.norm(full), "full evolution")
    rec.label(p["dyn"], "prop=" + p["prop"], "vec" if p["vec"] else "super",
              "collapse=%d" % len(cs))
    busy(props, rec)


def check_split(p, rec):
    P = Prob(p)
    dyn = dynamics(P)
    dyn.compute_evolution()
    tau = np.array(dyn.tau, dtype=float)
    full = arr(dyn.full_evo).copy()
    q = copy.deepcopy(p)
    nt, na, nd, nct = [], [], [], []
    for k in range(P.nts):
        parts = p["split"][k]
        tot = float(sum(parts))
        for w in parts:
            nt.append(tau[k] * w / tot)
            na.append(p["amps"][k])
            if p["td"]:
                nd.append(p["drift"][k])
            if p["tc"]:
                nct.append(p["ctrls"][k])
    q["amps"], q["nts"] = na, len(nt)
    q["tau"] = nt
    if p["td"]:
        q["drift"] = nd
    if p["tc"]:
        q["ctrls"] = nct
    q["prop"] = p["prop2"]
    Q = Prob(q)
    Q.tau = np.array(nt)
    d2 = dynamics(Q)
    d2.compute_evolution()
    s = 1.0
    for u in dyn.prop:
        s *= max(1.0, np.linalg.norm(arr(u), 2))
    s *= max(1.0, np.linalg.norm(P.initial))
    close(d2.full_evo, full, s, "evolution with split slots", 1e-8)
    e1 = float(dyn.fid_computer.get_fid_err())
    e2 = float(d2.fid_computer.get_fid_err())
    expect(abs(e1 - e2) < 1e-7 * max(1.0, s * s) * max(
        1.0, p.get("scale") or 1.0),
        "error %r became %r with split slots" % (e1, e2))
    rec.label(P.dyn, "pieces=%d" % (len(nt) - P.nts))
    if len(nt) == P.nts:
        rec.trivial()
    busy([arr(u) for u in dyn.prop], rec)


class _Grab(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self, logging.WARNING)
        self.msgs = []

    def emit(self, r):
        if r.levelno == logging.WARNING:
            self.msgs.append(r.getMessage())


def check_ucheck(p, rec):
    """Unitarity checking reports the slots that are not unitary."""
    import qutip_qtrl.dynamics as D

    P = Prob(p)
    opt = optimizer(P)
    dyn = opt.dynamics
    dyn.unitarity_check_level = p["lvl"]
    if p["tol"] is not None:
        dyn.unitarity_tol = p["tol"]
    lg = D.logger
    old, prop_old = lg.level, lg.propagate
    dis = logging.root.manager.disable
    h = _Grab()
    logging.disable(logging.NOTSET)
    lg.addHandler(h)
    lg.propagate = False
    lg.setLevel(logging.WARNING)
    try:
        dyn.initialize_controls(np.array(P.amps))
        lg.setLevel(logging.WARNING)
        dyn.compute_evolution()
    finally:
        lg.removeHandler(h)
        lg.setLevel(old)
        lg.propagate = prop_old
        logging.disable(dis)
    got = set()
    for m in h.msgs:
        x = re.findall(r"\d+", m)
        if x and "unitar" in m.lower():
            got.add(int(x[0]))
    any_bad = False
    for k in range(P.nts):
        u = arr(dyn.prop[k])
        d = np.abs(u @ u.conj().T - np.eye(P.n)).max()
        bad = d > 1.01 * (p["tol"] or 0) + 1e-4 * max(
            1.0, np.abs(u @ u.conj().T).max())
        good = d < max(1e-11, 0.99 * (p["tol"] or 0))
        any_bad |= bad
        if p["lvl"] and bad and k not in got:
            raise Violation("slot %d is not unitary (by %g) but was not "
                            "reported: %s" % (k, d, h.msgs))
        if k in got and (good or not p["lvl"]):
            raise Violation("slot %d is unitary (to %g) but was reported"
                            % (k, d))
    rec.label("lvl=%d" % p["lvl"], "non-unitary" if any_bad else "unitary",
              "prop=" + p["prop"], P.dyn)
    if P.nts < 2:
        rec.trivial()


@st.composite
def strat_sympl(draw):
    p = draw(gens.problem_cfg(max_ts=5, dyns=("SYMPL",), big=40, big_kw=dict(huge=True)))
    if draw(st.booleans()):
        p["preop"] = True
        p["cfg"]["pa"] = "preop"
    return p


@st.composite
def strat_lind(draw):
    n = draw(st.sampled_from([2, 2, 3]))
    nts = draw(st.integers(1, 4))
    nc = draw(st.integers(1, 2))
    return dict(
        n=n, nts=nts, H0=draw(gens.herm(n)),
        Hc=[draw(gens.herm(n)) for _ in range(nc)],
        c=[draw(gens.general(n)) for _ in range(draw(st.sampled_from([1, 1, 2, 0])))],
        T=draw(st.integers(1, 32)) / 8, amps=draw(gens.amplitudes(nts, nc)),
        rho=draw(gens.general(n)), vec=draw(st.booleans()),
        dyn="GEN_MAT",
        prop=draw(st.sampled_from(["DEF", "FRECHET", "AUG_MAT"])),
        dtype=draw(st.sampled_from([None, "nd", "Q"])),
        mem=draw(st.sampled_from([0, 0, 1])))


@st.composite
def strat_split(draw):
    p = draw(gens.problem_cfg(max_ts=4,
                              dyns=("UNIT", "UNIT", "GEN_MAT", "SYMPL")))
    p["split"] = [draw(st.lists(st.integers(1, 4), min_size=1, max_size=3))
                  for _ in range(p["nts"])]
    p["prop2"] = draw(st.sampled_from(gens.EXACT_PROPS[p["dyn"]]))
    return p


@st.composite
def strat_uc(draw):
    p = draw(gens.problem_cfg(max_ts=4, min_ts=1, tdep=False,
                              dyns=("UNIT", "UNIT", "UNIT", "GEN_MAT"),
                              dims=(2, 3, 4)))
    if p["dyn"] == "UNIT":
        p["td"] = True
        p["drift"] = [draw(gens.general(p["n"]))
                      if draw(st.integers(0, 2)) == 0
                      else draw(gens.herm(p["n"]))
                      for _ in range(p["nts"])]
        if draw(st.integers(0, 5)) == 0:
            # many slots, few of them not unitary
            p["nts"] = n = draw(st.integers(8, 30))
            h, b = draw(gens.herm(p["n"])), draw(gens.general(p["n"]))
            p["drift"] = [h] * n
            for k in draw(st.lists(st.integers(0, n - 1), max_size=3)):
                p["drift"][k] = b
            p["amps"] = [list(p["amps"][k % len(p["amps"])])
                         for k in range(n)]
        if draw(st.integers(0, 3)) == 0:
            # slightly non-unitary
            e = draw(st.sampled_from([100, 1000, 10 ** 5]))
            for k in draw(st.lists(st.integers(0, p["nts"] - 1),
                                   min_size=1, max_size=4)):
                h, b = gens.mat(draw(gens.herm(p["n"]))), gens.mat(
                    draw(gens.general(p["n"])))
                p["drift"][k] = gens.enc(h + b / e)
    p["tol"] = draw(st.sampled_from([None, None, 1e-12, 1e-6, 1e-3, 0.1, 2.0]))
    p["tau"] = dict(T=p["nts"] / 4.0)
    p["lvl"] = draw(st.sampled_from([0, 1, 1, 2, 2]))
    return p


PARTS = [
    Part("unitary", gens.problem_cfg(max_ts=6, dyns=("UNIT",), big=50, big_kw=dict(huge=True),
                                     dims=(2, 3, 4, 6)),
         check_unit, 2400, 24000),
    Part("symplectic", strat_sympl(), check_sympl, 2000, 20000),
    Part("omega", st.integers(1, 12), check_omega, 48, 100),
    Part("lindblad", strat_lind(), check_lindblad, 1600, 16000),
    Part("split", strat_split(), check_split, 2000, 20000),
    Part("ucheck", strat_uc(), check_ucheck, 2000, 20000),
]
