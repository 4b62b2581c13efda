from hypothesis import strategies as st
import numpy as np

import gens
import ref
from build import arr, dynamics
from common import check_tau, expect, grad_tol, scale_of
from core import Part, Violation
from ref import Prob, evolve

ID = "C02"
RULE = ("A case is a random control problem with a fidelity measure, exact "
        "(or finite-difference) propagator method and configuration. "
        "Non-trivial: the reference gradient exists and has an entry above "
        "1e-6.")


def earlier(P, dyn, rec):
    """Another pulse evaluated before the one that is judged."""
    prev = P.p.get("prev")
    if prev is None:
        return
    rec.label("after another pulse")
    a = np.array(P.amps)
    dyn.update_ctrl_amps(prev["f"] * a + prev["o"] * P.uamp)
    if prev["what"] in ("err", "both"):
        dyn.fid_computer.get_fid_err()
    if prev["what"] in ("grad", "both"):
        dyn.fid_computer.get_fid_err_gradient()
    dyn.update_ctrl_amps(a)


@st.composite
def with_prev(draw, base):
    p = draw(base)
    if draw(st.integers(0, 1)):
        p["prev"] = dict(
            f=draw(st.sampled_from([-1.0, 0.0, 0.5, 1.0, 2.0])),
            o=draw(st.sampled_from([-1.0, 0.0, 0.25, 1.0])),
            what=draw(st.sampled_from(["err", "grad", "both"])))
    return p


def check(p, rec):
    P = Prob(p)
    dyn = dynamics(P)
    fc = dyn.fid_computer
    earlier(P, dyn, rec)
    g = fc.get_fid_err_gradient()
    tau = np.array(dyn.tau, dtype=float)
    check_tau(P, tau)
    ev = evolve(P, tau, grads=True)
    want = ref.gradient(P, ev, 0.5e-8)
    rec.label(p["dyn"], "prop=" + p["prop"], "fid=" + p["fid"],
              "state" if p["state"] else "op")
    err = ref.fid_err(P, ev["full"])
    if want is None or (P.fid in ("PSU", "SU") and err < 1e-10):
        rec.label("not differentiable")
        rec.trivial()
        return
    g = np.asarray(g)
    expect(g.shape == (P.nts, P.nc), "gradient shape %s" % (g.shape,))
    tol = grad_tol(P, ev, tau)
    if P.fid == "PSU":
        tol *= max(1.0, 1e-3 / abs(ref.overlap(P, ev["full"])))
    d = np.abs(g - want)
    if not d.max() <= tol:
        raise Violation("gradient off by %g (tolerance %g)\ngot\n%s\n"
                        "expected\n%s" % (d.max(), tol, g, want))
    nrm = np.sqrt((want ** 2).sum())
    expect(abs(fc.grad_norm - nrm) <= tol * np.sqrt(want.size) + 1e-12 / P.uamp,
           "gradient norm %r, expected %r" % (fc.grad_norm, nrm))
    if np.abs(want).max() * P.uamp < 1e-6:
        rec.trivial()


def check_tda(p, rec):
    P = Prob(p)
    dyn = dynamics(P)
    fc = dyn.fid_computer
    earlier(P, dyn, rec)
    eps = p.get("eps", 0.001)
    tau = np.array(dyn.tau, dtype=float)
    e0 = fc.get_fid_err()
    g = np.asarray(fc.get_fid_err_gradient())
    ev = evolve(P, tau)
    expect(abs(e0 - ref.fid_err(P, ev["full"])) <= 1e-8 * scale_of(ev) ** 2,
           "finite-difference measure: error %r, expected %r"
           % (e0, ref.fid_err(P, ev["full"])))
    want = np.zeros((P.nts, P.nc))
    for k in range(P.nts):
        for j in range(P.nc):
            a = np.array(P.amps)
            a[k, j] += eps
            want[k, j] = (ref.fid_err(P, evolve(P, tau, a)["full"]) -
                          ref.fid_err(P, ev["full"])) / eps
    tol = 1e-12 / eps * max(1.0, scale_of(ev)) ** 2 * (
        1 + np.linalg.norm(P.target) ** 2) * max(1.0, p.get("scale") or 1)
    rec.label(p["dyn"], "state" if p["state"] else "op",
              "nts>1" if P.nts > 1 else "nts=1")
    d = np.abs(g - want)
    if g.shape != want.shape or not d.max() <= tol:
        raise Violation("finite-difference gradient off by %g (tolerance %g)"
                        "\ngot\n%s\nexpected\n%s" % (d.max(), tol, g, want))
    if np.abs(want).max() < 1e-6:
        rec.trivial()


@st.composite
def strat_tda(draw):
    p = draw(gens.problem(fid=["TD"]))
    p["fid"] = "TDA"
    p["prop"] = "APPROX"
    p["cfg"] = draw(gens.config())
    p["eps"] = draw(st.sampled_from([0.001, 0.001, 1e-4, 1e-5, 1e-6, 0.01, 0.1]))
    return p


@st.composite
def strat(draw):
    p = draw(with_prev(gens.problem_cfg(
        max_ts=5, dims=(2, 2, 3, 4), open_fid=True, units=True, big=60, big_kw=dict(huge=True))))
    unnorm = draw(st.integers(0, 7)) == 0 and (
        p["state"] or p["dyn"] == "UNIT")
    if unnorm:
        for k, fs in (("initial", [0.25, 1, 3]), ("target", [0.125, 0.5, 2])):
            f = draw(st.sampled_from(fs))
            p[k] = gens.enc(gens.mat(p[k]) * f)
        p["unnorm"] = True
    elif p["dyn"] == "UNIT" and draw(st.integers(0, 5)) == 0:
        # the pulse reaches something almost orthogonal to the target
        P = Prob(p)
        full = evolve(P, P.tau)["full"]
        d = draw(st.sampled_from([1e-1, 1e-2, 1e-3, 1e-4, 1e-5, 1e-6,
                                  1e-7, 1e-8]))
        w = np.exp(2j * np.pi * np.arange(P.n) / P.n)
        if p["state"]:
            v = w * full[:, 0][::-1] + 0.5
            v = v - full[:, 0] * np.vdot(full[:, 0], v)
            if np.linalg.norm(v) > 1e-2:
                v = v / np.linalg.norm(v) + d * full[:, 0]
                p["target"] = gens.enc(
                    (v / np.linalg.norm(v)).reshape(-1, 1))
        else:
            p["target"] = gens.enc(full @ np.diag(
                w * np.exp(1j * d * np.arange(P.n))))
    return p


@st.composite
def strat_gaps(draw):
    """Generators with eigenvalues in nearly degenerate groups."""
    p = draw(with_prev(gens.problem_cfg(
        dyns=("UNIT",), max_ts=3, max_nc=2, dims=(2, 2, 3, 4), tdep=False)))
    n = p["n"]
    p["prop"] = draw(st.sampled_from(["DIAG", "DIAG", "DIAG", "DEF",
                                      "FRECHET"]))
    e = 10.0 ** -draw(st.sampled_from([2, 3, 4, 4, 5, 5, 6, 6, 7, 8, 9, 10,
                                       11, 13, 16]))
    a = np.diag([draw(st.sampled_from([1.0, 1.0, -0.5])) +
                 e * draw(st.integers(-4, 4)) for _ in range(n)])
    if draw(st.booleans()):
        u = gens.mat(draw(gens.unitary(n)))
        a = u @ a @ u.conj().T
        a = (a + a.conj().T) / 2
    p["drift"] = [gens.enc(a)]
    f = [draw(st.sampled_from([0.0, 0.0, e, 1.0])) for _ in range(p["nts"])]
    p["amps"] = [[f[k] * x for x in row] for k, row in enumerate(p["amps"])]
    return p


PARTS = [
    Part("gaps", strat_gaps(), check, 2000, 20000),
    Part("grad", strat(), check, 6000, 80000),
    Part("fd", with_prev(strat_tda()), check_tda, 1600, 16000),
]
