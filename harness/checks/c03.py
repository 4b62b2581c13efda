"""Fidelity measures against their closed forms."""
import copy

from hypothesis import strategies as st
import numpy as np

import gens
import ref
from build import dynamics, qobj
from common import aug_tol, check_tau, expect, scale_of
from core import Part, Violation
from ref import Prob, evolve

ID = "C03"
RULE = ("A case is a random control problem with a fidelity measure "
        "(phase-insensitive, phase-sensitive, trace difference, finite "
        "difference), gate or state, normalised or not, plus a phase angle. "
        "Non-trivial: the reference evolution differs from both the initial "
        "operator and the target by more than 1e-3.")


def err_of(p, rec=None):
    P = Prob(p)
    dyn = dynamics(P)
    return P, dyn, float(dyn.fid_computer.get_fid_err())


def evo_tol(P, ev, tau):
    """Rounding of the full evolution (norm of the difference)."""
    turn = sum(np.linalg.norm(P.H(k), 2) * tau[k] for k in range(P.nts))
    return scale_of(ev) * np.linalg.norm(P.initial) * (
        1e-13 * (10 + P.nts + turn) + aug_tol(P, tau))


def err_tol(P, ev, tau):
    d = evo_tol(P, ev, tau) + 1e-14 * np.linalg.norm(P.target)
    if P.fid in ("PSU", "SU"):
        r = np.linalg.norm(P.target)
        c = 1.0
        if P.dyn != "UNIT" and not P.p["state"]:
            # (the inverse of the target takes part in the overlap)
            w = np.linalg.svd(P.target, compute_uv=False)
            c = r / w.min() * max(1.0, w.max() / w.min())
            d = d + 1e-14 * np.linalg.norm(ev["full"])
            return 4 * d * c / r ** 2 + 1e-15
        return 4 * d / r + 1e-15
    x = np.linalg.norm(P.target - ev["full"])
    return 1e-300 + ref.scale_factor(P) * (2 * x * d + d * d)


def nontrivial(P, ev, rec):
    if (np.abs(ev["full"] - P.initial).max() < 1e-3
            or np.abs(ev["full"] - P.target).max() < 1e-3):
        rec.trivial()


def check(p, rec):
    P, dyn, e = err_of(p)
    tau = np.array(dyn.tau, dtype=float)
    check_tau(P, tau)
    ev = evolve(P, tau)
    want = ref.fid_err(P, ev["full"])
    tol = err_tol(P, ev, tau)
    fc = dyn.fid_computer
    rec.label("fid=" + P.fid, P.dyn, "state" if p["state"] else "op",
              "unnormalised" if p.get("unnorm") else "normalised")
    if not abs(e - want) <= tol:
        raise Violation("fidelity error %r, expected %r" % (e, want))
    if P.fid in ("PSU", "SU"):
        nrm = np.linalg.norm(P.target) ** 2
        g = ref.overlap(P, ev["full"])
        f = abs(g) / nrm if P.fid == "PSU" else g.real / nrm
        got = float(np.real(fc.get_fidelity()))
        if not abs(got - f) <= tol:
            raise Violation("fidelity %r, expected %r" % (got, f))
        if P.dyn == "UNIT" and not p["state"] and not p.get("unnorm"):
            hi = 1.0 if P.fid == "PSU" else 2.0
            expect(-1e-9 <= e <= hi + 1e-9, "error %r outside [0, %g]"
                   % (e, hi))
    else:
        expect(abs(fc.scale_factor - ref.scale_factor(P))
               <= 1e-12 * ref.scale_factor(P),
               "scale factor %r, expected %r"
               % (fc.scale_factor, ref.scale_factor(P)))
    nontrivial(P, ev, rec)


def check_phase(p, rec):
    """Multiplying target or initial by a phase."""
    P, dyn, e = err_of(p)
    tau = np.array(dyn.tau, dtype=float)
    ev = evolve(P, tau)
    z = np.exp(1j * p["angle"])
    q = copy.deepcopy(p)
    q[p["which"]] = gens.enc(gens.mat(p[p["which"]]) * z)
    _, _, e2 = err_of(q)
    tol = 2 * err_tol(P, ev, tau)
    rec.label("fid=" + P.fid, p["which"])
    if P.fid == "PSU":
        if not abs(e - e2) <= tol:
            raise Violation("error changes from %r to %r when the %s gets "
                            "the phase %r" % (e, e2, p["which"], p["angle"]))
    else:
        Q = Prob(q)
        eq = evolve(Q, tau)
        want, tol = ref.fid_err(Q, eq["full"]), err_tol(Q, eq, tau)
        if not abs(e2 - want) <= tol:
            raise Violation("error %r, expected %r with the %s at phase %r"
                            % (e2, want, p["which"], p["angle"]))
    if abs(p["angle"]) < 1e-3:
        rec.trivial()
    nontrivial(P, ev, rec)


def check_zero(p, rec):
    """Reaching the target exactly gives zero error and a full fidelity; a
    target close by an error to match."""
    P = Prob(p)
    dyn = dynamics(P)
    tau = np.array(dyn.tau, dtype=float)
    ev = evolve(P, tau)
    q = copy.deepcopy(p)
    t = ev["full"] * (np.exp(1j * p["angle"]) if P.fid == "PSU" else 1.0)
    if p.get("near"):
        r = np.random.RandomState(p["dir"])
        x = r.randn(*t.shape)
        if P.dyn != "SYMPL":
            x = x + 1j * r.randn(*t.shape)
        t = t + p["near"] * np.linalg.norm(t) / np.linalg.norm(x) * x
    q["target"] = gens.enc(t)
    Q, d2, e = err_of(q)
    rec.label("fid=" + P.fid, P.dyn, "near" if p.get("near") else "exact")
    tol = err_tol(Q, ev, tau)
    want = ref.fid_err(Q, ev["full"])
    if p.get("near"):
        expect(abs(e - want) <= tol, "error %r, expected %r, close to the "
               "target" % (e, want))
    else:
        expect(abs(e) <= tol, "error %r although the target is reached" % e)
    if np.abs(ev["full"] - P.initial).max() < 1e-3:
        rec.trivial()


@st.composite
def strat(draw):
    p = draw(gens.problem_cfg(max_ts=5, open_fid=True, units=True, big=60, big_kw=dict(huge=True), dims=(2, 2, 3, 4, 6),
                              dyns=("UNIT", "UNIT", "GEN_MAT", "SYMPL")))
    if draw(st.integers(0, 4)) == 0:
        p["unnorm"] = True
        if p["state"]:
            p["initial"] = draw(gens.ket(p["n"], normalised=False))
            p["target"] = draw(gens.ket(p["n"], normalised=False))
        elif p["dyn"] == "UNIT":
            p["target"] = gens.enc(
                gens.mat(p["target"]) * draw(st.sampled_from([0.5, 2, 3])))
            p["initial"] = gens.enc(
                gens.mat(p["initial"]) * draw(st.sampled_from([0.5, 1, 3])))
    if p["fid"] == "TD" and draw(st.integers(0, 3)) == 0:
        p["fid"], p["prop"] = "TDA", "APPROX"
    return p


@st.composite
def strat_u(draw):
    p = draw(gens.problem_cfg(units=True, max_ts=4, dims=(2, 3, 4), dyns=("UNIT",),
                              fid=["PSU", "PSU", "SU", "TD"]))
    p["angle"] = draw(st.integers(-31, 31)) / 10
    p["which"] = draw(st.sampled_from(["initial", "target"]))
    return p


@st.composite
def strat_z(draw):
    p = draw(gens.problem_cfg(units=True, max_ts=5, dims=(2, 3, 4),
                              dyns=("UNIT", "UNIT", "GEN_MAT", "SYMPL")))
    p["angle"] = draw(st.integers(-31, 31)) / 10
    if draw(st.integers(0, 2)):
        p["near"] = 10.0 ** -draw(st.integers(1, 8))
        p["dir"] = draw(st.integers(0, 999))
    return p


PARTS = [Part("forms", strat(), check, 8000, 80000),
         Part("phase", strat_u(), check_phase, 2400, 24000),
         Part("zero", strat_z(), check_zero, 2400, 24000)]
