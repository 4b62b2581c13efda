"""Unitary GRAPE: update rule, limits and outputs."""
from hypothesis import strategies as st
import numpy as np
from qutip import QobjEvo

import gens
from build import arr, qobj
from common import close, expect
from core import Part, Violation
from gens import mat
from ref import expm_ref

import qutip_qtrl.grape as grape

ID = "C15"
RULE = ("A case is a Hermitian problem of dimension 2 to 4 with 1 to 3 "
        "controls, a uniform time grid, initial pulses in a documented "
        "container, a step, optional limits, penalties, interpolation and "
        "phase sensitivity, and a number of iterations. Both variants run; "
        "every recorded iterate is compared with the reference update of its "
        "predecessor. Non-trivial: at least one update changes a sample.")


class G:
    """Decoded GRAPE problem and reference computations."""

    def __init__(self, c):
        self.c = c
        self.n, self.M, self.R = c["n"], c["M"], c["R"]
        self.H0 = mat(c["drift"])
        self.Hs = [mat(m) for m in c["ctrls"]]
        self.J = len(self.Hs)
        self.U = mat(c["target"])
        t = c["t0"] + c["dt"] * np.arange(self.M)
        self.times = t
        self.dt = c["dt"]
        self.eps = c["eps"]
        if self.eps is None:
            self.eps = 0.1 * 2 * np.pi / t[-1]
        self.lim = c["lim"]

    def first(self):
        u = np.zeros((self.J, self.M))
        if self.c["u0"] is not None:
            u[:] = np.array(self.c["u0"], float).reshape(self.J, self.M)
            if self.lim:
                u = np.clip(u, *self.lim)
        return u

    def noise(self, u):
        """Growth of rounding errors: penalties can drive the samples to
        1e8, and an exponential is exact to eps times its exponent."""
        s = sum(np.abs(u[j, :-1]).sum() * np.linalg.norm(self.Hs[j], 2)
                for j in range(self.J))
        return 1.0 + 1e-5 * self.dt * (
            s + self.M * np.linalg.norm(self.H0, 2))

    def props(self, u):
        return [expm_ref(-1j * self.dt * (self.H0 + sum(
            u[j, m] * self.Hs[j] for j in range(self.J))))
            for m in range(self.M - 1)]

    def evolve(self, u):
        x = np.eye(self.n, dtype=complex)
        for p in self.props(u):
            x = p @ x
        return x

    def overlap(self, u):
        """Value of the documented fidelity of the pulse u."""
        o = np.trace(self.evolve(u).conj().T @ self.U) / self.n
        return o.real if self.c["ps"] else abs(o) ** 2

    def gradient(self, u):
        """Derivative (to first order in dt) of the objective.

        Every slot m changes the final propagator by
        -i dt (later slots) H_j (slots up to m)."""
        ps = self.props(u)
        g = np.zeros((self.J, self.M - 1))
        full = np.eye(self.n, dtype=complex)
        for p in ps:
            full = p @ full
        o = np.trace(self.U.conj().T @ full) / self.n
        for m in range(self.M - 1):
            x = np.eye(self.n, dtype=complex)
            for p in ps[: m + 1]:
                x = p @ x
            later = np.eye(self.n, dtype=complex)
            for p in ps[m + 1:]:
                later = p @ later
            for j in range(self.J):
                d = np.trace(self.U.conj().T @ later @ (
                    -1j * self.dt * self.Hs[j]) @ x) / self.n
                if self.c["ps"]:
                    v = d.real
                else:
                    v = 2 * (d * o.conjugate()).real
                v -= 2 * (self.c["alpha"] or 0.0) * u[j, m] * self.dt
                v -= 2 * (self.c["beta"] or 0.0) * m ** 2 * u[j, m] * self.dt
                g[j, m] = v
        return g

    def step(self, u, eps, g=None):
        g = self.gradient(u) if g is None else g
        v = np.empty_like(u)
        v[:, :-1] = u[:, :-1] + eps * g
        if self.lim:
            v[:, :-1] = np.clip(v[:, :-1], *self.lim)
        v[:, -1] = v[:, -2]
        return v

    # ------------------------------------------------------------------
    def args(self):
        c = self.c
        d = c["dims"]
        dims = [list(d), list(d)]
        U = qobj(self.U, dims, c["csr"])
        H0 = qobj(self.H0, dims, c["csr"])
        Hs = [qobj(h, dims, c["csr"]) for h in self.Hs]
        times = self.times.copy()
        if c["tlist"]:
            times = [float(t) for t in times]
        kw = dict(eps=c["eps"], alpha=c["alpha"], beta=c["beta"],
                  phase_sensitive=c["ps"], use_interp=c["interp"] is not None)
        if c["interp"]:
            kw["interp_kind"] = c["interp"]
        if self.lim:
            kw["u_limits"] = (tuple if c["lim_tuple"] else list)(self.lim)
        if c["u0"] is not None:
            u = np.array(c["u0"], float).reshape(self.J, self.M)
            if c["u0_as"] == "list":
                u = [[int(x) if x == int(x) else float(x) for x in r]
                     for r in u]
            elif c["u0_as"] == "rows":
                u = [np.array(r) for r in u]
            kw["u_start"] = u
        if c["pb"]:
            kw["progress_bar"] = False
        return (U, H0, Hs, self.R, times), kw

    def check_outputs(self, r, u, what, rec):
        """r.U_f and r.H_t describe the pulse u."""
        close(r.U_f, self.evolve(u), self.noise(u), what + "U_f", 1e-9)
        d = self.c["dims"]
        expect([list(x) for x in r.U_f.dims] == [list(d), list(d)],
               "%sdims of U_f are %s" % (what, r.U_f.dims))
        close(r.H_t[0], self.H0, 1.0, what + "H_t drift")
        expect(len(r.H_t) == 1 + self.J, what + "length of H_t")
        for j in range(self.J):
            op, co = r.H_t[1 + j]
            close(op, self.Hs[j], 1.0, what + "operator %d of H_t" % j)
            if self.c["interp"] is None:
                co = np.array(co, float)
                expect(co.shape == (self.M,) and
                       np.abs(co - u[j]).max() <= 1e-12,
                       "%ssamples of control %d in H_t are %s, the pulse is "
                       "%s" % (what, j, co, u[j]))
            else:
                for m, t in enumerate(self.times):
                    v = float(co(float(t)))
                    expect(abs(v - u[j, m]) <= 1e-9 * (1 + np.abs(u).max()),
                           "%scontrol %d in H_t at node %d is %r, the pulse "
                           "is %r" % (what, j, m, v, u[j, m]))
                for x in (0.25, 3.0):
                    v = float(co(float(self.times[-1] + x * self.dt)))
                    expect(abs(v - u[j, -1]) <= 1e-9 * (1 + np.abs(u).max()),
                           "%scontrol %d in H_t after the end is %r, the last "
                           "sample is %r" % (what, j, v, u[j, -1]))
        if self.c["evo"]:
            # QobjEvo merges coefficients that agree to five digits
            rec.label("QobjEvo of H_t")
            if self.c["interp"] is None:
                e = QobjEvo(r.H_t, tlist=self.times, order=0)
                sh = 0.5 * self.dt
            else:
                e = QobjEvo(r.H_t)
                sh = 0.0
            for m in range(self.M - 1):
                h = self.H0 + sum(u[j, m] * self.Hs[j]
                                  for j in range(self.J))
                close(e(float(self.times[m] + sh)), h,
                      1 + self.J * np.abs(u).max() * max(
                          np.abs(x).max() for x in self.Hs),
                      what + "H_t in slot %d" % m, 1e-4)


def unchanged(a, kw, a2, kw2):
    for x, y in zip([a[0], a[1]] + a[2], [a2[0], a2[1]] + a2[2]):
        expect(np.array_equal(arr(x), arr(y)) and x.dims == y.dims,
               "an operator given was changed")
    expect(np.array_equal(a[4], a2[4]), "the times given were changed")
    for k in kw:
        if k == "u_start":
            expect(all(np.array_equal(x, y) for x, y in zip(kw[k], kw2[k])),
                   "u_start was changed")
        else:
            expect(kw[k] == kw2[k], k + " was changed")


def check(c, rec):
    g = G(c)
    us = {}
    moved = False
    for name in ("grape_unitary", "cy_grape_unitary"):
        a, kw = g.args()
        r = getattr(grape, name)(*a, **kw)
        unchanged(a, kw, *g.args())
        u = np.array(r.u)
        what = name + ": "
        expect(u.shape == (g.R, g.J, g.M), "%su has shape %s"
               % (what, u.shape))
        if not np.array_equal(u[0], g.first()):
            raise Violation("%sinitial pulse is\n%s\nexpected\n%s"
                            % (what, u[0], g.first()))
        if g.lim:
            expect(u.min() >= g.lim[0] and u.max() <= g.lim[1],
                   "%slimits %s violated:\n%s" % (what, g.lim, u))
        for i in range(g.R - 1):
            want = g.step(u[i], g.eps)
            tol = 1e-10 * (1 + np.abs(u[i]).max()) * (1 + g.eps) * (
                1 + abs(c["alpha"] or 0) + g.M ** 2 * abs(c["beta"] or 0)
            ) * g.noise(u[i])
            if not np.abs(u[i + 1] - want).max() <= tol:
                raise Violation("%siterate %d is\n%s\nexpected\n%s" % (
                    what, i + 1, u[i + 1], want))
            moved = moved or not np.array_equal(u[i + 1], u[i])
        g.check_outputs(r, u[-1], what, rec)
        us[name] = u
    x, y = us.values()
    expect(np.abs(x - y).max() <= 1e-6 * (1 + np.abs(x).max()),
           "the two variants differ:\n%s\n%s" % (x, y))
    rec.label("n=%d" % c["n"], "phase sensitive" if c["ps"] else "modulus",
              "interp %s" % c["interp"])
    if c["lim"]:
        rec.label("limits")
        if any(np.any((v[1:, :, :-1] == c["lim"][0])
                      | (v[1:, :, :-1] == c["lim"][1]))
               for v in us.values()):
            rec.label("limits active")
    if c["alpha"] or c["beta"]:
        rec.label("penalties")
    if not moved:
        rec.trivial()


@st.composite
def strat(draw, minR=1, maxR=6):
    n = draw(st.sampled_from([2] * 20 + [3] * 10 + [4] * 10 + [6, 8]))
    M = draw(st.integers(2, 6))
    J = draw(st.integers(1, 3))
    big = draw(st.integers(0, 59)) == 30
    if big:
        M, J = draw(st.sampled_from([(12, 1), (25, 2), (50, 1), (3, 6),
                                     (8, 4)]))
    R = draw(st.integers(minR, maxR))
    if not big and n < 6 and draw(st.integers(0, 39)) == 20:
        # many iterations
        M, J = min(M, 3), 1
        R = draw(st.integers(10, 40))
    long = R >= 10
    lim = draw(st.sampled_from(
        [None, None, None, [-1.0, 1.0], [-0.25, 0.5], [0.0, 1.0],
         [0.25, 0.75], [-0.5, 0.0]]))
    kinds = ["linear", "nearest", "zero", "previous"]
    if M >= 4:
        kinds.append("cubic")
    u0 = draw(st.sampled_from([[], None])) if big else draw(st.one_of(
        st.lists(st.integers(-8, 8), min_size=J * M, max_size=J * M).map(
            lambda v: [x / 8.0 for x in v]),
        st.lists(st.integers(-2, 2), min_size=J * M, max_size=J * M).map(
            lambda v: [float(x) for x in v]),
        st.none()))
    if big and u0 is not None:
        u0 = (np.random.RandomState(draw(st.integers(0, 999))).randint(
            -8, 9, J * M) / 8.0).tolist()
    if lim and not lim[0] <= 0 <= lim[1] and u0 is None:
        u0 = [0.5] * (J * M)
    return dict(
        n=n, M=M, R=R,
        drift=draw(gens.herm(n)), ctrls=[draw(gens.herm(n))
                                         for _ in range(J)],
        target=draw(gens.unitary(n)), dims=draw(st.sampled_from(
            gens.dims_for(n))), csr=draw(gens.STORE),
        dt=draw(st.integers(1, 16)) / 32.0,
        t0=draw(st.sampled_from([0.0, 0.0, 0.0, 1.0])),
        tlist=draw(st.booleans()),
        eps=draw(st.sampled_from(
            [None, 0.1, 0.5, 1.0, 3.0, 0.01, 2.0 ** -14, 64.0][:3 if long
                                                               else 8])),
        lim=lim, lim_tuple=draw(st.booleans()), u0=u0,
        u0_as=draw(st.sampled_from(["array", "list", "rows"])),
        alpha=draw(st.sampled_from(
            [None, None, 0.0, 0.1, 1e-4, 1e-6, 1.0, 3.0][:4 if long else 8])),
        beta=draw(st.sampled_from(
            [None, None, 0.0, 0.1, 1e-4, 1e-6, 1.0, 3.0][:4 if long else 8])),
        interp=draw(st.sampled_from([None, None] + kinds)),
        ps=draw(st.booleans()), pb=draw(st.booleans()),
        evo=draw(st.integers(0, 3)) == 0)


def check_limits(c, rec):
    """Limits that are not a pair are rejected."""
    g = G(c["p"])
    for name in ("grape_unitary", "cy_grape_unitary",
                 "grape_unitary_adaptive"):
        a, kw = g.args()
        kw["u_limits"] = c["lim"]
        try:
            getattr(grape, name)(*a, **kw)
        except ValueError:
            continue
        raise Violation("%s accepts limits %r" % (name, c["lim"]))


bad_limits = st.fixed_dictionaries(dict(
    p=strat(2, 3), lim=st.lists(st.sampled_from([-1.0, 0.0, 1.0]),
                                min_size=1, max_size=4).filter(
        lambda x: len(x) != 2)))


def check_plot(c, rec):
    """The plotted control fields are those of the pulse matrix."""
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt

    R, J, M = c["R"], c["J"], c["M"]
    u = np.array(c["u"], float).reshape(R, J, M)
    times = np.linspace(0, 1, M)
    u2 = u.copy()
    fig, axes = grape.plot_grape_control_fields(
        times, u, ["c%d" % j for j in range(J)], uniform_axes=c["uni"])
    try:
        expect(np.array_equal(u, u2), "the pulses were changed")
        expect(axes.shape == (J, 1), "axes have shape %s" % (axes.shape,))
        for j in range(J):
            lines = axes[j, 0].get_lines()
            expect(len(lines) == R, "%d lines for %d iterates"
                   % (len(lines), R))
            for r, ln in enumerate(lines):
                x, y = ln.get_xdata(), ln.get_ydata()
                expect(np.array_equal(x, times) and
                       np.array_equal(y, u[r, j]),
                       "line %d of control %d shows %s, the pulse is %s"
                       % (r, j, y, u[r, j]))
            expect(axes[j, 0].get_ylabel() == "c%d" % j, "label of axis %d"
                   % j)
            if c["uni"] and np.abs(u).max() > 0:
                lo, hi = axes[j, 0].get_ylim()
                expect(lo <= u.min() and hi >= u.max(), "range (%s, %s) of "
                       "axis %d does not show all values" % (lo, hi, j))
    finally:
        plt.close(fig)
    if R * J == 1:
        rec.trivial()


@st.composite
def plots(draw):
    R, J, M = [draw(st.integers(1, 4)) for _ in range(3)]
    M += 1
    return dict(R=R, J=J, M=M, uni=draw(st.booleans()),
                u=draw(st.lists(st.integers(-9, 9), min_size=R * J * M,
                                max_size=R * J * M)))


PARTS = [Part("updates", strat(), check, 3000, 40000),
         Part("limits", bad_limits, check_limits, 160),
         Part("plots", plots(), check_plot, 48, 200)]
