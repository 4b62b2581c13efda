"""Public operator lists against the reference evolution."""
import warnings

from hypothesis import strategies as st
import numpy as np
from qutip import Qobj

import gens
from build import arr, dynamics, operators
from common import (aug_tol, check_tau, expect, grad_scale, min_gap,
                    scale_of)
from core import Part, Violation
from qutip_qtrl.propcomp import PropagatorComputer
from ref import Prob, evolve

ID = "C06"
RULE = ("A case is a random control problem and configuration, plus the order "
        "in which the public operator lists are read. Non-trivial: at least "
        "two slots and some propagator differing from the identity by more "
        "than 1e-3.")

READS = ["dyn_gen", "prop", "prop_grad", "fwd_evo", "onwd_evo", "onto_evo",
         "full_evo", "onto_evo_target", "H"]


def same(q, a, dims, scale, what, tol=1e-8):
    if not isinstance(q, Qobj):
        raise Violation("%s is a %s, not a Qobj" % (what, type(q).__name__))
    if q.dims != dims:
        raise Violation("%s has dims %s, expected %s" % (what, q.dims, dims))
    g = q.full()
    if g.shape != a.shape:
        raise Violation("%s has shape %s, expected %s"
                        % (what, g.shape, a.shape))
    d = np.abs(g - a).max()
    if not d <= tol * max(1.0, scale):
        raise Violation("%s differs from the reference by %g (scale %g)\n"
                        "got\n%s\nexpected\n%s" % (what, d, scale, g, a))


# the old names of the lists of evolutions
OLD = {"evo_init2t": ("fwd", None), "evo_t2end": ("onwd", "uses_onwd_evo"),
       "evo_t2targ": ("onto", "uses_onto_evo")}


def inverse(P):
    if P.dyn == "UNIT" or P.p["state"]:
        return P.target.conj().T
    return np.linalg.inv(P.target)


def read(dyn, P, ev, name, rec):
    n, nts, nc = P.n, P.nts, P.nc
    drift, ctrls, ini, tgt = operators(P)
    od = (drift[0] if P.p["td"] else drift).dims
    sd = ini.dims
    rd = [tgt.dims[1], tgt.dims[0]]
    s = scale_of(ev)
    if name == "H" and P.dyn != "UNIT":
        return
    val = getattr(dyn, name)
    rec.label("read " + name)
    if name in ("dyn_gen", "H"):
        # (for unitary dynamics the generators are the Hamiltonians)

        expect(len(val) == nts, "%d generators" % len(val))
        for k in range(nts):
            # (qutip drops entries of an operator below 1e-12)
            same(val[k], P.H(k), od, np.abs(P.H(k)).max(),
                 "generator %d" % k, 1e-12 if P.uamp <= 1 else 1e-8)
    elif name == "prop":
        expect(len(val) == nts, "%d propagators" % len(val))
        for k in range(nts):
            same(val[k], ev["props"][k], od,
                 np.linalg.norm(ev["props"][k]), "propagator %d" % k)
    elif name == "prop_grad":
        if val is None:
            expect(not dyn.cache_prop_grad or
                   not dyn.prop_computer.grad_exact,
                   "no propagator gradients although they are cached")
            rec.label("no prop_grad")
            return
        expect(np.shape(val) == (nts, nc), "prop_grad shape %s"
               % (np.shape(val),))
        tol = 1e-8
        if P.dyn == "UNIT" and P.p["prop"] in ("DEF", "DIAG"):
            tol += 4e-14 / min_gap(P, np.array(dyn.tau, float))
        tol += aug_tol(P, np.array(dyn.tau, float))
        for k in range(nts):
            for j in range(nc):
                same(val[k, j], ev["dprops"][k][j], od,
                     grad_scale(P, ev) * P.uamp,
                     "propagator gradient %d,%d" % (k, j), tol / P.uamp)
    elif name == "fwd_evo":
        expect(len(val) == nts + 1, "%d forward evolutions" % len(val))
        for k in range(nts + 1):
            same(val[k], ev["fwd"][k], sd, s, "forward evolution %d" % k)
    elif name == "full_evo":
        same(val, ev["full"], sd, s, "full evolution")
    elif name == "onwd_evo":
        if val is None:
            expect(not dyn.fid_computer.uses_onwd_evo, "no onward evolutions")
            return
        expect(len(val) == nts, "%d onward evolutions" % len(val))
        for k in range(nts):
            same(val[k], ev["onwd"][k], od, s, "onward evolution %d" % k)
    else:
        tinv = inverse(P)
        if name == "onto_evo_target":
            same(val, tinv, rd, np.abs(tinv).max(), "onto-evolution target")
            return
        if val is None:
            expect(not dyn.fid_computer.uses_onto_evo, "no onto evolutions")
            return
        expect(len(val) == nts + 1, "%d onto evolutions" % len(val))
        for k in range(nts):
            same(val[k], tinv @ ev["onwd"][k], rd,
                 s * max(1.0, np.abs(tinv).max()), "onto evolution %d" % k)
        same(val[nts], tinv, rd, np.abs(tinv).max(), "last onto evolution")


def check(p, rec):
    P = Prob(p)
    dyn = dynamics(P)
    if p["both"]:
        fc = dyn.fid_computer
        fc.uses_onwd_evo = fc.uses_onto_evo = True
        dyn.initialize_controls(np.array(P.amps))
    if p["grad"]:
        dyn.fid_computer.get_fid_err_gradient()
    else:
        dyn.compute_evolution()
    tau = np.array(dyn.tau, dtype=float)
    check_tau(P, tau)
    ev = evolve(P, tau, grads=True)
    for name in p["order"]:
        read(dyn, P, ev, name, rec)
    if p.get("again"):
        # the lists of a second pulse, some of them read for the first time
        rec.label("second pulse")
        q = dict(p, amps=p["again"])
        P = Prob(q)
        dyn.update_ctrl_amps(np.array(P.amps))
        dyn.compute_evolution()
        ev = evolve(P, tau, grads=True)
        for name in p["order2"]:
            read(dyn, P, ev, name, rec)
    if p.get("steep"):
        rec.label("steep target")
    rec.label(P.dyn, "dtype=%s" % p["cfg"].get("dtype"),
              "state" if p["state"] else "op",
              "dims=%d" % len(p["dims"]))
    if P.nts < 2 or max(np.abs(u - np.eye(P.n)).max()
                        for u in ev["props"]) < 1e-3:
        rec.trivial()


@st.composite
def strat(draw):
    p = draw(gens.problem_cfg(max_ts=4, open_fid=True, units=True, big=60, big_kw=dict(huge=True), dims=(2, 3, 4, 6),
                              dyns=("UNIT", "UNIT", "GEN_MAT", "SYMPL")))
    if p["fid"] == "TD" and draw(st.integers(0, 5)) == 0:
        p["fid"], p["prop"] = "TDA", "APPROX"
    if p["dyn"] == "GEN_MAT" and not p["state"] and \
            draw(st.integers(0, 3)) == 0:
        # a target of widely different singular values
        n = p["n"]
        a = np.diag(draw(gens.ints(n, -7, 0))) + \
            np.array(draw(gens.ints(n * n, -2, 2))).reshape(n, n) / 4
        p["target"] = {"x": gens.enc(a, 4)}
        p["steep"] = True
    if p["state"] and draw(st.integers(0, 3)) == 0:
        p = draw(gens.off_norm(p))
    p["both"] = draw(st.booleans())
    p["grad"] = draw(st.booleans())
    p["order"] = draw(st.permutations(READS))
    if draw(st.booleans()):
        p["again"] = draw(gens.amplitudes(p["nts"], p["nc"]))
        p["order"] = p["order"][draw(st.integers(0, 3)):]
        p["order2"] = draw(st.permutations(READS))
    return p


# --------------------------------------------------- operators per timeslot
def check_ops(p, rec):
    """The operator getters for one timeslot, including the deprecated ones,
    in any order after the evolution was computed."""
    P = Prob(p)
    dyn = dynamics(P)
    if p["both"]:
        fc = dyn.fid_computer
        with warnings.catch_warnings():
            warnings.simplefilter("ignore", FutureWarning)
            fc.uses_evo_t2end = fc.uses_evo_t2targ = True
        dyn.initialize_controls(np.array(P.amps))
    pc, fc, ts = dyn.prop_computer, dyn.fid_computer, dyn.tslot_computer
    dyn.compute_evolution()
    tau = np.array(dyn.tau, dtype=float)
    ev = evolve(P, tau, grads=True)
    gtol = 4e-14 / min_gap(P, tau) if (
        P.dyn == "UNIT" and p["prop"] in ("DEF", "DIAG")) else 0
    gtol += aug_tol(P, tau)
    for name, k, j in p["reads"]:
        k, j = k % P.nts, j % P.nc
        rec.label("read " + name)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore", FutureWarning)
            if name in OLD:
                lst = getattr(dyn, name)
                want, used = OLD[name]
                flag = used is None or getattr(fc, used)
                expect((lst is not None) == bool(flag), "%s is %s"
                       % (name, type(lst)))
                if lst is None:
                    continue
                want = ev[want] if want != "onto" else [
                    inverse(P) @ u for u in ev["onwd"]] + [inverse(P)]
                expect(len(lst) == len(want), "%s has %d entries"
                       % (name, len(lst)))
                for i, (q, a) in enumerate(zip(lst, want)):
                    near(q, a, scale_of(ev) * max(1.0, np.abs(a).max()),
                         "%s[%d]" % (name, i))
            elif name == "uses":
                for a, b in (("uses_evo_t2end", "uses_onwd_evo"),
                             ("uses_evo_t2targ", "uses_onto_evo")):
                    v = getattr(fc, b)
                    expect(getattr(fc, a) == v, a)
                    setattr(fc, a, not v)
                    expect(getattr(fc, b) == (not v), "setting " + a)
                    setattr(fc, a, v)
            elif name == "num_ctrls":
                expect(dyn.get_num_ctrls() == P.nc, "get_num_ctrls")
            elif name == "target":
                q = dyn.get_owd_evo_target()
                expect(q is dyn.onto_evo_target, "get_owd_evo_target")
            elif name == "combine":
                q = dyn.combine_dyn_gen(k)
                near(q, P.H(k), np.abs(P.H(k)).max(), "combined generator")
            elif name == "dyn_gen":
                q = dyn.get_dyn_gen(k)
                near(q, P.phase(P.H(k)), np.abs(P.H(k)).max(),
                     "phased generator")
            elif name == "ctrl":
                q = dyn.get_ctrl_dyn_gen(j)
                a = P.C(0, j)
                near(q, P.phase(a), np.abs(a).max(), "phased control")
            elif name == "ctrl_kj":
                f = getattr(dyn, "_get_phased_ctrl_dyn_gen", None)
                if f is None:
                    continue
                q = f(k, j)
                a = P.C(k, j)
                near(q, P.phase(a), np.abs(a).max(), "phased control")
            elif name == "propagator":
                if P.dyn == "UNIT" and p["prop"] in ("DEF", "DIAG") and \
                        hasattr(dyn, "_decomp_curr"):
                    dyn._decomp_curr[k] = False
                q = pc.compute_propagator(k)
                near(q, ev["props"][k], np.linalg.norm(ev["props"][k]),
                     "propagator")
            elif name == "prop_grad":
                if not pc.grad_exact:
                    continue
                out = pc.compute_prop_grad(k, j, compute_prop=True)
                expect(isinstance(out, tuple) and len(out) == 2,
                       "compute_prop_grad returns %s" % type(out))
                near(out[0], ev["props"][k], np.linalg.norm(ev["props"][k]),
                     "propagator with gradient")
                near(out[1], ev["dprops"][k][j], grad_scale(P, ev) * P.uamp,
                     "propagator gradient", (1e-8 + gtol) / P.uamp)
                out = pc.compute_prop_grad(k, j, compute_prop=False)
                near(out, ev["dprops"][k][j], grad_scale(P, ev) * P.uamp,
                     "propagator gradient alone", (1e-8 + gtol) / P.uamp)
            elif name == "diff_prop":
                if not hasattr(type(pc), "_compute_diff_prop") or \
                        type(pc)._compute_diff_prop is \
                        PropagatorComputer._compute_diff_prop:
                    continue
                eps = 2.0 ** -10 * P.uamp
                q = pc.compute_diff_prop(k, j, eps)
                a = np.array(P.amps)
                a[k, j] += eps
                want = evolve(P, tau, a)["props"][k]
                near(q, want, np.linalg.norm(want), "shifted propagator")
            elif name == "slot":
                expect(ts.get_timeslot_for_fidelity_calc() == P.nts,
                       "timeslot of the fidelity")
            elif name == "phase":
                if P.fid in ("PSU", "SU"):
                    fc.set_phase_option(P.fid)
                    expect(fc.phase_option == P.fid, "phase option")
    full = arr(dyn.full_evo)
    near(full, ev["full"], scale_of(ev), "full evolution afterwards")
    rec.label(P.dyn, "prop=" + p["prop"])
    if len(p["reads"]) < 2:
        rec.trivial()


def near(q, a, scale, what, tol=1e-8):
    g = arr(q)
    if g.shape != a.shape:
        raise Violation("%s has shape %s, expected %s"
                        % (what, g.shape, a.shape))
    d = np.abs(g - a).max()
    if not d <= tol * max(1.0, scale):
        raise Violation("%s differs from the reference by %g (scale %g)\n"
                        "got\n%s\nexpected\n%s" % (what, d, scale, g, a))


@st.composite
def ops_strat(draw):
    p = draw(strat())
    if p["fid"] == "TD" and draw(st.integers(0, 2)) == 0:
        p["fid"], p["prop"] = "TDA", "APPROX"
    p["reads"] = draw(st.lists(st.tuples(
        st.sampled_from(["num_ctrls", "target", "combine", "dyn_gen", "ctrl",
                         "ctrl_kj", "propagator", "prop_grad", "diff_prop",
                         "slot", "phase", "uses"] + sorted(OLD)),
        st.integers(0, 3), st.integers(0, 3)).map(list), min_size=1,
        max_size=8))
    return p


PARTS = [Part("lists", strat(), check, 4800, 60000),
         Part("operators", ops_strat(), check_ops, 4000, 40000)]
