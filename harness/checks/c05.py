"""Histories of updates, evaluations and re-initialisations."""
import copy

from hypothesis import strategies as st
import numpy as np
from qutip import Qobj
import qutip_qtrl.fidcomp as fidcomp
import qutip_qtrl.propcomp as propcomp

import gens
from build import arr, dyn_params, dynamics, operators, optimizer
from common import expect, scale_of
from core import Part, Violation
from ref import Prob, evolve, fid_err

ID = "C05"
RULE = ("A case is a random control problem and a list of operations "
        "(amplitude updates: new, one entry, identical, reverted; error, "
        "gradient, evolution and list reads; optimiser callbacks; "
        "re-initialisation with the same or new target, initial, durations, "
        "slots, drift, controls, phase option, caching, operator type, "
        "propagator or fidelity computer or phase application; clearing). Non-trivial: at "
        "least one amplitude change or re-initialisation happens between two "
        "evaluations.")


class Model:
    def __init__(self, p):
        self.p = copy.deepcopy(p)
        P = Prob(self.p)
        self.opt = optimizer(P)
        self.dyn = self.opt.dynamics
        tc = self.opt.termination_conditions
        tc.fid_err_targ = -1.0
        tc.min_gradient_norm = -1.0
        tc.max_fid_func_calls = 10 ** 9
        self.held = np.array(P.amps)
        self.dyn.initialize_controls(self.held)
        self.tau = np.array(self.dyn.tau)
        self.cur = False        # evolution computed for these amplitudes
        self.graded = False
        self.hist = [np.array(P.amps)]
        self.set_amps(np.array(P.amps))
        self._fresh = None

    def set_amps(self, a):
        self.p["amps"] = [[float(x) for x in r] for r in a]
        self._fresh = None

    @property
    def amps(self):
        return np.array(self.p["amps"], dtype=float).reshape(
            self.p["nts"], self.p["nc"])

    def changed(self):
        self.cur = self.graded = False
        self._fresh = None

    def update(self, a):
        a = np.array(a, dtype=float)
        if not np.array_equal(a, self.amps):
            self.changed()
            self.set_amps(a)
            self.hist.append(a.copy())
            return True
        return False

    def fresh(self):
        """A new problem with the current settings and amplitudes."""
        if self._fresh is None:
            P = Prob(self.p)
            P.tau, P.equal = self.tau, False
            self._fresh = (P, dynamics(P), evolve(P, self.tau))
        return self._fresh

    def check_err(self, e, what):
        P, d, ev = self.fresh()
        want = float(d.fid_computer.get_fid_err())
        s = scale_of(ev) + np.linalg.norm(P.target)
        tol = 1e-10 * max(1.0, s * s) * max(1.0, self.p.get("scale") or 1)
        expect(abs(float(e) - want) <= tol, "%s: fidelity error %r, but %r "
               "for a fresh problem" % (what, float(e), want))
        indep = fid_err(P, ev["full"])
        expect(abs(float(e) - indep) <= 100 * tol,
               "%s: fidelity error %r, reference %r"
               % (what, float(e), indep))

    def check_grad(self, g, what):
        P, d, ev = self.fresh()
        want = np.array(d.fid_computer.get_fid_err_gradient())
        g = np.asarray(g)
        if g.shape != want.shape:
            raise Violation("%s: gradient shape %s, expected %s"
                            % (what, g.shape, want.shape))
        s = scale_of(ev) * max(1.0, np.linalg.norm(P.target))
        m = max(1.0, np.abs(want).max())
        tol = 1e-9 * max(m, s * s) * max(1.0, self.p.get("scale") or 1)
        if self.p["fid"] == "TDA":
            tol /= self.p.get("eps", 1e-3)
        if not np.abs(g - want).max() <= tol:
            raise Violation("%s: gradient\n%s\nbut for a fresh problem\n%s"
                            % (what, g, want))
        gn = float(self.dyn.fid_computer.grad_norm)
        nrm = float(np.sqrt((want ** 2).sum()))
        expect(abs(gn - nrm) <= 10 * tol, "%s: gradient norm %r, but %r for a "
               "fresh problem" % (what, gn, nrm))

    def check_lists(self, names, what):
        P, d, ev = self.fresh()
        d.compute_evolution()
        s = scale_of(ev) * max(1.0, np.linalg.norm(np.linalg.pinv(P.target)))
        for name in names:
            a, b = getattr(self.dyn, name), getattr(d, name)
            if a is None or b is None:
                expect(a is None and b is None, "%s: %s is %s, for a fresh "
                       "problem it is %s" % (what, name, type(a), type(b)))
                continue
            if isinstance(a, Qobj):
                a, b = [a], [b]
            a = np.asarray(np.empty(0)) if len(a) == 0 else a
            if name == "prop_grad":
                expect(np.shape(a) == np.shape(b), "%s: prop_grad shape"
                       % what)
                a, b = list(np.ravel(a)), list(np.ravel(b))
            expect(len(a) == len(b), "%s: %s has %d entries, a fresh problem "
                   "%d" % (what, name, len(a), len(b)))
            for k, (x, y) in enumerate(zip(a, b)):
                expect(x.dims == y.dims, "%s: %s[%d] dims" % (what, name, k))
                x, y = arr(x), arr(y)
                if not np.abs(x - y).max() <= 1e-9 * max(1.0, s):
                    raise Violation("%s: %s[%d] is\n%s\nbut for a fresh "
                                    "problem\n%s" % (what, name, k, x, y))

    def reinit(self, a=None):
        a = self.amps if a is None else np.array(a, dtype=float)
        self.held = own(a, len(self.hist) if hasattr(self, "hist") else 0)
        self.dyn.initialize_controls(self.held)
        self.changed()
        self.set_amps(a)
        self.hist = [a.copy()]


def own(a, i):
    """The caller's array of the values a: of its own, a part or a view of
    another one."""
    if i % 4 == 1:
        b = np.zeros((a.shape[0] + 1, a.shape[1]))
        v = b[1:]
    elif i % 4 == 2:
        v = np.zeros(a.size).reshape(a.shape)
    elif i % 4 == 3:
        v = np.zeros(a.shape[::-1]).T
    else:
        v = np.zeros(a.shape)
    v[...] = a
    return v


def moved(a, kind, k, j):
    """The same values in another place (or with another sign)."""
    a = np.array(a)
    r, c = k % a.shape[0], j % a.shape[1]
    r2 = (r + 1 + j) % a.shape[0]
    if kind == "swap":
        a[[r, r2], c] = a[[r2, r], c]
    elif kind == "rows":
        a[[r, r2]] = a[[r2, r]]
    elif kind == "reverse":
        a = a[::-1]
    elif kind == "roll":
        a = np.roll(a, 1 + k, 0)
    elif kind == "columns":
        a = a[:, ::-1]
    elif kind == "sign":
        a[r, c] *= -1
    elif kind == "negate":
        a = -a
    elif kind == "shift":
        # the sum of the control stays
        a[r, c] += 0.5
        a[r2, c] -= 0.5
    elif kind == "transpose":
        a = a.T.reshape(a.shape)
    else:
        a = a * 2.0
    return np.array(a)


def related(P, what, rel):
    z = _related(P, what, rel)
    if what == "target" and z.shape[0] == z.shape[1] and \
            np.linalg.cond(z) > 1e3:
        # (general dynamics need the inverse)
        z = -P.target
    return z


def _related(P, what, rel):
    x = P.target if what == "target" else P.initial
    y = P.initial if what == "target" else P.target
    if P.dyn == "SYMPL":
        # (symplectic again)
        return {"other": y, "square": x @ x}.get(rel, -x)
    if rel == "phase":
        return 1j * x
    if rel == "conj":
        return x.conj()
    if rel == "flip":
        return x[::-1]
    if rel == "signs":
        return x * np.array([[-1.0]] + [[1.0]] * (len(x) - 1))
    if rel == "adjoint" and x.shape[0] == x.shape[1]:
        return x.conj().T
    if rel == "transpose" and x.shape[0] == x.shape[1]:
        return x.T
    if rel == "square" and x.shape[0] == x.shape[1]:
        return x @ x
    if rel == "other":
        return y
    return -x


LISTS = ["dyn_gen", "prop", "prop_grad", "fwd_evo", "onwd_evo", "onto_evo",
         "full_evo", "onto_evo_target"]


def step(m, o, i, rec):
    dyn, fc = m.dyn, m.dyn.fid_computer
    t = o["op"]
    what = "step %d (%s)" % (i, t)
    rec.label(t)
    if t in ("new", "one", "same", "revert", "move"):
        if t == "new":
            a = np.array(o["a"], dtype=float)
            a = np.resize(a, (m.p["nts"], m.p["nc"]))
        elif t == "one":
            a = m.amps
            a[o["k"] % a.shape[0], o["j"] % a.shape[1]] += o["d"]
        elif t == "move":
            a = moved(m.amps, o["kind"], o["k"], o["j"])
        elif t == "same":
            a = m.amps
        else:
            a = m.hist[o["i"] % len(m.hist)]
        if o["via"] == "cb_err":
            m.update(a)
            m.check_err(m.opt.fid_err_func_wrapper(a.ravel().copy()), what)
            m.cur = True
        elif o["via"] == "cb_grad":
            m.update(a)
            g = m.opt.fid_err_grad_wrapper(a.ravel().copy())
            m.check_grad(np.reshape(g, a.shape), what)
            m.cur = m.graded = True
        else:
            m.update(a)
            if o["via"] == "inplace" and m.held is not None and \
                    m.held.shape == a.shape:
                # the caller changes its own array and hands it over again
                m.held[...] = a
                dyn.update_ctrl_amps(m.held)
            else:
                m.held = own(a, i)
                dyn.update_ctrl_amps(m.held)
        expect(np.array_equal(dyn.ctrl_amps, m.amps),
               "%s: stored amplitudes\n%s\nexpected\n%s"
               % (what, dyn.ctrl_amps, m.amps))
    elif t == "err":
        m.check_err(fc.get_fid_err(), what)
        m.cur = True
    elif t == "grad":
        m.check_grad(fc.get_fid_err_gradient(), what)
        m.cur = m.graded = True
    elif t == "evo":
        r = bool(dyn.compute_evolution())
        expect(r == (not m.cur), "%s: the evolution was %srecomputed although "
               "the amplitudes %s" % (
                   what, "" if r else "not ",
                   "did not change" if m.cur else "changed"))
        m.cur = True
    elif t == "lists":
        dyn.compute_evolution()
        m.cur = True
        m.check_lists(o["names"], what)
    elif t == "init":
        m.reinit()
    elif t in ("target", "initial") and o.get("rel"):
        # an operator that has much in common with the present one
        P = Prob(m.p)
        m.p[t] = gens.enc(related(P, t, o["rel"]))
        setattr(dyn, t, operators(Prob(m.p))[3 if t == "target" else 2])
        rec.label("related " + t)
        m.reinit()
    elif t == "target":
        m.p["target"] = o["m"]
        dyn.target = operators(Prob(m.p))[3]
        m.reinit()
    elif t == "initial":
        m.p["initial"] = o["m"]
        dyn.initial = operators(Prob(m.p))[2]
        m.reinit()
    elif t == "tau":
        # permuted and rescaled durations, through either setter
        f = o["f"]
        if o["how"] == "tau":
            new = np.roll(np.array(m.tau, float), 1) * f
            dyn.tau = new.copy()
        else:
            dyn.evo_time = float(np.sum(m.tau)) * f
        m.reinit()
        m.tau = np.array(dyn.tau)
        want = new if o["how"] == "tau" else np.full(
            m.p["nts"], float(dyn.evo_time) / m.p["nts"])
        expect(np.allclose(m.tau, want, rtol=1e-6), "%s: durations %s, "
               "expected %s" % (what, m.tau, want))
    elif t == "nts":
        if m.p["td"] or m.p["tc"]:
            return
        n = o["n"]
        m.p["nts"] = n
        m.p["tau"] = dict(T=float(np.sum(m.tau)))
        a = np.resize(np.array(o["a"], dtype=float), (n, m.p["nc"]))
        dyn.num_tslots = n
        m.set_amps(a)
        m.reinit(a)
        m.tau = np.array(dyn.tau)
        expect(len(m.tau) == n, "%s: %d durations" % (what, len(m.tau)))
    elif t in ("drift", "ctrls"):
        if t == "drift":
            m.p["td"], m.p["drift"] = False, [o["m"]]
        else:
            m.p["tc"], m.p["ctrls"] = False, [o["ms"]]
            m.p["nc"] = len(o["ms"])
        a = np.resize(np.array(o["a"], dtype=float),
                      (m.p["nts"], m.p["nc"]))
        m.set_amps(a)
        P = Prob(m.p)
        if P.dyn != "UNIT":
            tau = P.tau if len(P.tau) == m.p["nts"] else np.full(
                m.p["nts"], 0.05)
            dyn.tau = tau * 1.0
        d, c, _, _ = operators(P)
        nm = "_ham" if o.get("ham") and P.dyn == "UNIT" else "_dyn_gen"
        rec.label("by " + nm)
        if t == "drift":
            setattr(dyn, "drift" + nm, d)
        else:
            setattr(dyn, "ctrl" + nm, c)
        m.reinit(a)
        m.tau = np.array(dyn.tau)
    elif t == "system":
        # another problem altogether, perhaps of another dimension
        q = dict(copy.deepcopy(o["p"]), fid=m.p["fid"], cfg=m.p["cfg"],
                 prop=m.p["prop"])
        for k in ("scale", "eps", "preop"):
            q.pop(k, None)
            if k in m.p:
                q[k] = m.p[k]
        if q["n"] <= 2 and q["cfg"].get("sed"):
            # (sparse decompositions need more than two levels)
            q["cfg"]["sed"] = dyn.sparse_eigen_decomp = False
        if q["n"] != m.p["n"]:
            rec.label("other dimension")
        m.p = q
        P = Prob(q)
        d, c, ini, tgt = operators(P)
        dyn.drift_dyn_gen, dyn.ctrl_dyn_gen = d, c
        dyn.initial, dyn.target = ini, tgt
        dyn.num_tslots = P.nts
        dyn.tau = np.array(P.tau)
        m.reinit(P.amps)
        m.tau = np.array(dyn.tau)
    elif t == "phase":
        if m.p["fid"] not in ("PSU", "SU"):
            return
        m.p["fid"] = o["v"]
        fc.phase_option = o["v"]
        m.reinit()
    elif t == "config":
        configure(m, o, rec)
        m.reinit()
    elif t == "clear":
        dyn.clear()
        m.changed()
        dyn.update_ctrl_amps(m.amps.copy())
    elif t == "fclear":
        fc.clear()
        m.graded = False


PROPS = {"DIAG": propcomp.PropCompDiag, "FRECHET": propcomp.PropCompFrechet,
         "AUG_MAT": propcomp.PropCompAugMat}


def configure(m, o, rec):
    """Change settings before the next initialisation of the controls."""
    p, dyn = m.p, m.dyn
    for k, v in o["set"]:
        if k in ("cpd", "cpg", "cea", "sed", "dtype"):
            if k == "sed" and v and p["n"] <= 2:
                continue
            p["cfg"][k] = v
            setattr(dyn, *list(dyn_params({k: v}).items())[0])
        elif k == "prop":
            if p["fid"] == "TDA" or (v == "DIAG" and p["dyn"] != "UNIT"):
                continue
            p["prop"] = v
            dyn.prop_computer = PROPS[v](dyn)
        elif k == "fid":
            if p["dyn"] != "UNIT" or p["fid"] == "TDA":
                continue
            p["fid"] = v
            p.pop("scale", None)
            if v == "TD":
                dyn.fid_computer = fidcomp.FidCompTraceDiff(dyn)
            else:
                dyn.fid_computer = fidcomp.FidCompUnitary(dyn)
                dyn.fid_computer.phase_option = v
        elif k == "pa":
            if p["dyn"] != "SYMPL":
                continue
            if v == "read":
                dyn.dyn_gen_phase
            else:
                p["cfg"]["pa"] = v
                p["preop"] = v.lower() == "preop"
                dyn.phase_application = v
        rec.label("set " + k)


SETTING = st.one_of(
    st.tuples(st.sampled_from(["cpd", "cpg", "cea", "sed"]), st.booleans()),
    st.tuples(st.just("dtype"), st.sampled_from(["nd", "Q"])),
    st.tuples(st.just("prop"), st.sampled_from(sorted(PROPS))),
    st.tuples(st.just("fid"), st.sampled_from(["PSU", "SU", "TD"])),
    st.tuples(st.just("pa"), st.sampled_from(
        ["preop", "postop", "PREOP", "PostOp", "read"]))).map(list)


def check(c, rec):
    m = Model(c["p"])
    n = 0
    seen = False
    for i, o in enumerate(c["ops"]):
        before = m.cur
        step(m, o, i, rec)
        if before and not m.cur:
            seen = True
        if seen and m.cur:
            n += 1
    # final evaluation, gradient before or after the error
    if c["last"] == "grad":
        m.check_grad(m.dyn.fid_computer.get_fid_err_gradient(), "at the end")
        m.check_err(m.dyn.fid_computer.get_fid_err(), "at the end")
    else:
        m.check_err(m.dyn.fid_computer.get_fid_err(), "at the end")
        m.check_grad(m.dyn.fid_computer.get_fid_err_gradient(), "at the end")
    m.check_lists(LISTS, "at the end")
    rec.label("problem " + c["p"]["dyn"], "fid=" + c["p"]["fid"])
    if not n and not seen:
        rec.trivial()


@st.composite
def op(draw, p):
    n, nts, nc = p["n"], p["nts"], p["nc"]
    t = draw(st.sampled_from(
        ["new", "new", "one", "one", "one", "move", "same", "same", "revert",
         "err", "err", "grad", "grad", "evo", "evo", "lists", "lists",
         "init", "target", "initial", "tau", "nts", "drift", "ctrls",
         "phase", "clear", "fclear", "config", "config", "system"]))
    o = dict(op=t)
    if t in ("new", "one", "same", "revert", "move"):
        o["via"] = draw(st.sampled_from(
            ["set", "set", "set", "inplace", "inplace", "cb_err",
             "cb_grad"]))
        if t == "new":
            o["a"] = draw(gens.amplitudes(nts, nc))
        elif t == "one":
            o["k"] = draw(st.integers(0, 9))
            o["j"] = draw(st.integers(0, 9))
            o["d"] = draw(st.sampled_from(
                [0.5, -0.25, 1.0, 1e-3, 1e-6, 1e-9, 3e-12,
                 1e-13, 1e-15, 0.0]))
        elif t == "move":
            o["kind"] = draw(st.sampled_from(
                ["swap", "swap", "rows", "reverse", "roll", "columns", "sign",
                 "negate", "shift", "transpose", "double"]))
            o["k"] = draw(st.integers(0, 9))
            o["j"] = draw(st.integers(0, 9))
        elif t == "revert":
            o["i"] = draw(st.integers(0, 9))
    elif t == "lists":
        o["names"] = draw(st.lists(st.sampled_from(LISTS), min_size=1,
                                   max_size=8, unique=True))
    elif t in ("target", "initial") and draw(st.booleans()):
        o["rel"] = draw(st.sampled_from(
            ["minus", "phase", "conj", "flip", "signs", "adjoint", "transpose",
             "square", "other"]))
    elif t in ("target", "initial"):
        if p["state"]:
            o["m"] = draw(gens.ket(n))
        elif p["dyn"] == "UNIT":
            o["m"] = draw(gens.unitary(n))
        elif p["dyn"] == "SYMPL":
            o["m"] = {"sy": draw(gens.symm(n))}
        else:
            o["m"] = {"x": draw(gens.general(n))}
    elif t == "tau":
        o["f"] = draw(st.sampled_from([1.0, 0.5, 0.75]))
        o["how"] = draw(st.sampled_from(["tau", "T"]))
    elif t == "nts":
        o["n"] = draw(st.integers(1, 5))
        o["a"] = draw(gens.amplitudes(4, 3))
    elif t in ("drift", "ctrls"):
        g = {"UNIT": gens.herm, "GEN_MAT": gens.general,
             "SYMPL": gens.symm}[p["dyn"]]
        if t == "drift":
            o["m"] = draw(g(n))
        else:
            o["ms"] = [draw(g(n)) for _ in range(draw(st.integers(1, 3)))]
        o["ham"] = draw(st.booleans())
        o["a"] = draw(gens.amplitudes(4, 3))
    elif t == "config":
        o["set"] = draw(st.lists(SETTING, min_size=1, max_size=4))
    elif t == "system":
        o["p"] = draw(gens.problem(
            dyns=(p["dyn"],), max_ts=4, dims=(2, 3, 4),
            fid=["TD" if p["fid"] == "TDA" else p["fid"]],
            state=False if p["dyn"] != "UNIT" else None))
    elif t == "phase":
        o["v"] = draw(st.sampled_from(["PSU", "SU"]))
    return o


@st.composite
def strat(draw):
    p = draw(gens.problem_cfg(open_fid=True,
                              dyns=("UNIT", "UNIT", "GEN_MAT", "SYMPL"),
                              max_ts=4, dims=(2, 2, 3), big=40,
                              big_kw=dict(max_ts=12, max_dim=9, max_nc=5)))
    if p["fid"] == "TD" and draw(st.integers(0, 4)) == 0:
        p["fid"], p["prop"] = "TDA", "APPROX"
    ops, q = [], p
    for _ in range(draw(st.integers(4, 18))):
        o = draw(op(q))
        if o["op"] == "system":
            q = dict(o["p"], fid=q["fid"])
        ops.append(o)
    return dict(p=p, ops=ops, last=draw(st.sampled_from(["grad", "err"])))


PARTS = [Part("history", strat(), check, 6000, 80000)]
