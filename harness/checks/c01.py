from hypothesis import strategies as st
import numpy as np

import gens
from gens import mat
from build import arr, dynamics, optimizer, qobj
from core import Part, Violation
from ref import Prob, evolve, gradient

ID = "C01"
RULE = ("A case is a random control problem (generators, controls, initial "
        "operator or state, slot durations, amplitudes, configuration). "
        "Non-trivial: at least one slot propagator differs from the identity "
        "by more than 1e-3, so the evolution does something.")


def close(a, b, scale, what, tol=1e-8):
    a, b = arr(a), arr(b)
    if a.shape != b.shape:
        raise Violation("%s: shape %s, expected %s" % (what, a.shape, b.shape))
    err = np.abs(a - b).max() if a.size else 0.0
    if not err <= tol * max(1.0, scale):
        raise Violation("%s differs from the reference by %g (scale %g)\n"
                        "got\n%s\nexpected\n%s" % (what, err, scale, a, b))


def scale_of(ev):
    s = 1.0
    for u in ev["props"]:
        s *= max(1.0, np.linalg.norm(u, 2))
    return s * max(1.0, np.linalg.norm(ev["fwd"][0]))


def check(p, rec):
    P = Prob(p)
    dyn = dynamics(P)
    dyn.compute_evolution()
    tau = np.array(dyn.tau, dtype=float)
    if len(tau) != P.nts or np.abs(tau - P.tau).max() > 1e-6 * P.tau.max():
        raise Violation("slot durations %s, expected %s" % (tau, P.tau))
    ev = evolve(P, tau)
    rec.label(p["dyn"], "prop=" + p["prop"], "state" if p["state"] else "op",
              "nts=1" if p["nts"] == 1 else "nts>1",
              "tdrift" if p["td"] else "cdrift", "tctrl" if p["tc"] else "cctrl",
              "equal" if P.equal else "unequal")
    close(dyn.full_evo, ev["full"], scale_of(ev), "full evolution")
    if max(np.abs(u - np.eye(P.n)).max() for u in ev["props"]) < 1e-3:
        rec.trivial()


@st.composite
def strat(draw):
    p = draw(gens.problem_cfg(approx=True, units=True, big=50, big_kw=dict(huge=True), max_ts=8, dims=(2, 2, 3, 4, 6)))
    if p["dyn"] == "SYMPL" and draw(st.booleans()):
        p["preop"] = True
        p["cfg"]["pa"] = "preop"
    if p["prop"] == "APPROX" and p["fid"] == "TD" and p["dyn"] == "UNIT":
        p["fid"] = "TDA"
    if p["state"] and draw(st.integers(0, 3)) == 0:
        p = draw(gens.off_norm(p))
    if p["prop"] != "AUG_MAT" and draw(st.integers(0, 24)) == 0:
        # tiny amplitudes with huge operators (and the other way round; the
        # exponential of an augmented matrix suffers from huge operators)
        p["units"] = [draw(st.sampled_from([-40, 30])), 0]
        if p["units"][0] > 0:
            for m in [m for row in p["ctrls"] for m in row]:
                m["re"] = [x if abs(x) > 1e-3 else 0.0 for x in m["re"]]
    return p


# ------------------------------------------------ phases chosen by the user
class Phased(Prob):
    def __init__(self, p):
        super().__init__(p)
        m = p["phase"]
        self.left = mat(m["l"]) if "l" in m else np.eye(self.n)
        self.right = mat(m["r"]) if "r" in m else np.eye(self.n)
        self.factor = complex(*m.get("c", [1, 0]))

    def phase(self, g):
        return self.factor * self.left @ g @ self.right


def check_phase(p, rec):
    """A phase operator set by the user is applied as configured."""
    P = Phased(p)
    dyn = optimizer(P).dynamics
    m = p["phase"]
    dt = p["cfg"].get("dtype")
    qo = dt == "Q" or (dt is None and p["cfg"].get("mem"))
    od = [list(p["dims"])] * 2

    def typed(a):
        return qobj(a, od) if qo else np.array(a)

    how = m["how"]
    if how == "custom":
        left, right = typed(P.left), typed(P.right)
        dyn.dyn_gen_phase = 1.0
        dyn.phase_application = "custom"
        if qo:
            dyn._apply_phase = lambda dg: P.factor * left * dg * right
        else:
            dyn._apply_phase = lambda dg: P.factor * left.dot(dg).dot(right)
    else:
        if "c" in m:
            dyn.dyn_gen_phase = P.factor
        else:
            dyn.dyn_gen_phase = typed(P.left if how == "preop" else P.right)
        dyn.phase_application = how
    dyn.initialize_controls(np.array(P.amps))
    dyn.compute_evolution()
    tau = np.array(dyn.tau, dtype=float)
    ev = evolve(P, tau, grads=True)
    s = scale_of(ev)
    rec.label("phase " + how + ("" if "c" not in m else " scalar"))
    if not s < 1e6:
        rec.label("huge, not compared")
        rec.trivial()
        return
    for k in range(P.nts):
        close(dyn.dyn_gen[k], P.H(k), np.abs(P.H(k)).max(), "generator", 1e-10)
        close(dyn.prop[k], ev["props"][k], s, "propagator %d" % k)
    close(dyn.full_evo, ev["full"], s, "full evolution")
    want = gradient(P, ev)
    got = np.array(dyn.fid_computer.get_fid_err_gradient())
    t = max(1.0, s * s) * max(1.0, np.linalg.norm(P.target)) * \
        max(1.0, p.get("scale") or 1.0)
    t *= max(1.0, P.uamp * max(np.linalg.norm(d) for r in ev["dprops"]
                              for d in r)) / P.uamp
    if got.shape != want.shape or not np.abs(got - want).max() <= 1e-8 * t:
        raise Violation("gradient\n%s\nexpected\n%s" % (got, want))
    if max(np.abs(u - np.eye(P.n)).max() for u in ev["props"]) < 1e-3:
        rec.trivial()


@st.composite
def strat_phase(draw):
    p = draw(gens.problem_cfg(dyns=("GEN_MAT",), units=True, max_ts=4, dims=(2, 3)))
    n = p["n"]
    m = dict(how=draw(st.sampled_from(["preop", "postop", "custom"])))
    if m["how"] == "custom":
        m["l"], m["r"] = draw(gens.general(n)), draw(gens.general(n))
        m["c"] = [draw(st.integers(-4, 4)) / 4.0,
                  draw(st.integers(-4, 4)) / 4.0]
    elif draw(st.booleans()):
        m["c"] = [draw(st.integers(-8, 8)) / 8.0,
                  draw(st.integers(-8, 8)) / 8.0]
    else:
        m["l" if m["how"] == "preop" else "r"] = draw(gens.general(n))
    p["phase"] = m
    return p


PARTS = [Part("evo", strat(), check, 12000, 150000),
         Part("phase", strat_phase(), check_phase, 1500, 20000)]
