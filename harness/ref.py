"""Independent reference computations (plain numpy)."""
import numpy as np

from gens import mat


def expm_ref(a):
    """Matrix exponential by scaling and squaring of a Taylor series."""
    a = np.asarray(a, dtype=complex)
    n = a.shape[0]
    nrm = np.abs(a).sum(axis=0).max() if a.size else 0.0
    s = 0
    while nrm > 0.25:
        nrm /= 2.0
        s += 1
    b = a / (2.0 ** s)
    term = np.eye(n, dtype=complex)
    out = np.eye(n, dtype=complex)
    for i in range(1, 19):
        term = term @ b / i
        out = out + term
    for _ in range(s):
        out = out @ out
    return out


def expm_frechet_ref(a, e):
    n = a.shape[0]
    blk = np.zeros((2 * n, 2 * n), complex)
    blk[:n, :n] = a
    blk[n:, n:] = a
    blk[:n, n:] = e
    x = expm_ref(blk)
    return x[:n, :n], x[:n, n:]


def omega_ref(n):
    o = np.zeros((2 * n, 2 * n))
    for i in range(n):
        o[2 * i, 2 * i + 1] = 1.0
        o[2 * i + 1, 2 * i] = -1.0
    return o


class Prob:
    """Decoded problem."""

    def __init__(self, p):
        self.p = p
        self.dyn = p["dyn"]
        self.n, self.nts, self.nc = p["n"], p["nts"], p["nc"]
        # units of amplitude and time (powers of two: the numbers are exact)
        ka, kt = p.get("units") or (0, 0)
        self.uamp, self.utime = 2.0 ** ka, 2.0 ** kt
        self.drift = [mat(m) * self.utime for m in p["drift"]]
        self.ctrls = [[mat(m) * (self.utime / self.uamp) for m in row]
                      for row in p["ctrls"]]
        self.initial = mat(p["initial"])
        self.target = mat(p["target"])
        self.amps = np.array(p["amps"], dtype=float) * self.uamp
        self.fid = p["fid"]
        if self.dyn == "SYMPL":
            self.omega = omega_ref(self.n // 2)
        self.tau = self._tau()

    @property
    def bra(self):
        """What the evolution is overlapped with."""
        if (self.dyn != "UNIT" and not self.p["state"]
                and self.p["fid"] in ("PSU", "SU")):
            return np.linalg.inv(self.target)
        return self.target.conj().T

    def H(self, k, amps=None):
        amps = self.amps if amps is None else amps
        g = self.drift[k if self.p["td"] else 0].astype(complex)
        for j in range(self.nc):
            g = g + amps[k, j] * self.C(k, j)
        return g

    def C(self, k, j):
        return self.ctrls[k if self.p["tc"] else 0][j]

    def phase(self, g):
        if self.dyn == "UNIT":
            return -1j * g
        if self.dyn == "SYMPL":
            if self.p.get("preop"):
                return self.omega @ g
            return -g @ self.omega
        return g

    def _tau(self):
        t = self.p["tau"]
        if isinstance(t, dict):
            tau = np.full(self.nts, t["T"] / self.nts)
        else:
            tau = np.array(t, dtype=float)
        tau = tau / self.utime
        # keep the evolution of non-unitary dynamics within a sane range
        cap = 40.0 if self.dyn == "UNIT" else 3.0
        tot = 0.0
        for k in range(self.nts):
            g = self.drift[k if self.p["td"] else 0]
            nr = np.abs(g).sum(axis=0).max()
            for j in range(self.nc):
                nr += (max(2.0 * self.uamp, np.abs(self.amps).max()) *
                       np.abs(self.C(k, j)).sum(axis=0).max())
            tot += nr * tau[k]
        self.equal = isinstance(t, dict)
        if tot > cap:
            tau = tau * (cap / tot)
        return tau

    @property
    def evo_time(self):
        return float(self.tau.sum())


def evolve(P, tau=None, amps=None, grads=False):
    """props, dprops, fwd, onwd of the problem (reference)."""
    tau = P.tau if tau is None else np.asarray(tau, dtype=float)
    amps = P.amps if amps is None else np.asarray(amps, dtype=float)
    props, dprops = [], []
    for k in range(P.nts):
        g = P.phase(P.H(k, amps)) * tau[k]
        if grads:
            row = []
            for j in range(P.nc):
                u, d = expm_frechet_ref(g, P.phase(P.C(k, j)) * tau[k])
                row.append(d)
            dprops.append(row)
        props.append(expm_ref(g))
    fwd = [P.initial]
    for u in props:
        fwd.append(u @ fwd[-1])
    onwd = [None] * P.nts
    acc = np.eye(P.n)
    for k in range(P.nts - 1, -1, -1):
        acc = acc @ props[k]
        onwd[k] = acc
    return dict(props=props, dprops=dprops, fwd=fwd, onwd=onwd,
                full=fwd[-1])


def scale_factor(P):
    s = P.p.get("scale")
    return 1.0 / (2.0 * P.n) if s is None else s


def overlap(P, U):
    return np.trace(P.bra @ U)


def fid_err(P, U):
    if P.fid in ("PSU", "SU"):
        nrm = np.real(np.trace(P.target.conj().T @ P.target))
        g = overlap(P, U)
        f = abs(g) / nrm if P.fid == "PSU" else g.real / nrm
        return abs(1 - f)
    d = P.target - U
    return scale_factor(P) * float((np.abs(d) ** 2).sum())


def gradient(P, ev, least=1e-5):
    """Exact gradient of fid_err; None where it is not differentiable."""
    U = ev["full"]
    g = np.zeros((P.nts, P.nc))
    nrm = np.real(np.trace(P.target.conj().T @ P.target))
    ov = overlap(P, U)
    for k in range(P.nts):
        for j in range(P.nc):
            d = ev["dprops"][k][j] @ ev["fwd"][k]
            if k + 1 < P.nts:
                d = ev["onwd"][k + 1] @ d
            if P.fid == "PSU":
                if abs(ov) < least:
                    return None
                df = np.real(np.conj(ov) / abs(ov) * overlap(P, d)) / nrm
                f = abs(ov) / nrm
                g[k, j] = -df if f < 1 else df
            elif P.fid == "SU":
                df = np.real(overlap(P, d)) / nrm
                g[k, j] = -df if ov.real / nrm < 1 else df
            else:
                g[k, j] = -2 * scale_factor(P) * np.real(
                    np.trace((P.target - U).conj().T @ d))
    return g
