"""Builds qutip_qtrl objects from a problem case."""
import numpy as np
import qutip
from qutip import Qobj

import qutip_qtrl.pulseoptim as cpo
from ref import Prob

DT = {"nd": np.ndarray, "Q": Qobj}


def qobj(a, dims=None, csr=False):
    a = np.asarray(a, dtype=complex)
    if dims is None:
        dims = [[a.shape[0]], [a.shape[1]]]
    q = Qobj(a, dims=dims)
    if csr == "mix":  # (the operators of a problem in different forms)
        csr = [False, True, "dia"][int(np.abs(a).sum() * 8 + a.shape[1]) % 3]
    if csr:
        q = q.to("Dia" if csr == "dia" else "CSR")
    return q


def operators(P):
    p = P.p
    d = p.get("dims") or [P.n]
    od = [list(d), list(d)]
    csr = p.get("csr", False)

    def op(a):
        a = np.asarray(a)
        if a.shape[1] == 1 and a.shape[0] != 1:
            return qobj(a, [list(d), [1] * len(d)], csr)
        return qobj(a, od, csr)

    drift = [op(m) for m in P.drift]
    if not p["td"]:
        drift = drift[0]
    if p["tc"]:
        ctrls = np.empty((P.nts, P.nc), dtype=object)
        for k in range(P.nts):
            for j in range(P.nc):
                ctrls[k, j] = op(P.ctrls[k][j])
    else:
        ctrls = [op(m) for m in P.ctrls[0]]
    return drift, ctrls, op(P.initial), op(P.target)


def dyn_params(cfg):
    d = {}
    if cfg.get("mem"):
        d["memory_optimization"] = cfg["mem"]
    if cfg.get("dtype"):
        d["oper_dtype"] = DT[cfg["dtype"]]
    for a, b in (("cpd", "cache_phased_dyn_gen"), ("cpg", "cache_prop_grad"),
                 ("cea", "cache_dyn_gen_eigenvectors_adj"),
                 ("sed", "sparse_eigen_decomp"),
                 ("ucl", "unitarity_check_level"),
                 ("pa", "phase_application"), ("dumping", "dumping")):
        if cfg.get(a) is not None:
            d[b] = cfg[a]
    return d


def optimizer(P, **kw):
    """Optimizer from create_pulse_optimizer for problem P (not initialised)."""
    p = P.p
    drift, ctrls, ini, tgt = operators(P)
    a = dict(dyn_type=P.dyn)
    a["dyn_params"] = dyn_params(p.get("cfg") or {})
    a["prop_type"] = p.get("prop", "DEF")
    fp = {}
    if P.fid in ("PSU", "SU"):
        a["fid_type"] = "UNIT"
        fp["phase_option"] = P.fid
    elif P.fid == "TD":
        a["fid_type"] = "TRACEDIFF" if a["prop_type"] != "APPROX" else "DEF"
    elif P.fid == "TDA":
        a["fid_type"] = "TDAPPROX"
        if "eps" in p:
            fp["epsilon"] = p["eps"]
    if p.get("scale") is not None:
        fp["scale_factor"] = p["scale"]
    if fp:
        a["fid_params"] = fp
    if P.equal:
        a["num_tslots"] = P.nts
        a["evo_time"] = P.evo_time
    else:
        a["tau"] = np.array(P.tau)
    a["log_level"] = 40
    a.update(kw)
    return cpo.create_pulse_optimizer(drift, ctrls, ini, tgt, **a)


def dynamics(P, **kw):
    opt = optimizer(P, **kw)
    opt.dynamics.initialize_controls(np.array(P.amps))
    return opt.dynamics


def arr(q):
    if isinstance(q, Qobj):
        return q.full()
    return np.asarray(q)
