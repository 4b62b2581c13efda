"""Hypothesis strategies for control problems.  All cases are JSON-able."""
import numpy as np
from hypothesis import strategies as st


# --------------------------------------------------------------------------
# matrices: {"s": [rows, cols], "re": [...], "im": [...] or [], "d": denominator}
# --------------------------------------------------------------------------
def mat(m):
    """Decode a matrix."""
    if "u" in m:  # exp(-i H) of a Hermitian matrix
        h = mat(m["u"])
        w, v = np.linalg.eigh(h)
        return (v * np.exp(-1j * w)) @ v.conj().T
    if "x" in m:  # exp of a general matrix (well conditioned, invertible)
        from ref import expm_ref

        return expm_ref(mat(m["x"]))
    if "sy" in m:  # exp(-H Omega), a symplectic matrix
        from ref import expm_ref, omega_ref

        h = mat(m["sy"])
        return expm_ref(-h @ omega_ref(h.shape[0] // 2))
    if "by" in m:  # a multiple
        return mat(m["by"]) * m["f"]
    if "norm" in m:  # normalised column
        v = mat(m["norm"])
        nv = np.linalg.norm(v)
        if nv == 0:
            v = np.zeros_like(v)
            v[0, 0] = 1
            nv = 1.0
        return v / nv
    r, c = m["s"]
    a = np.array(m["re"], dtype=float).reshape(r, c)
    if m.get("im"):
        a = a + 1j * np.array(m["im"], dtype=float).reshape(r, c)
    else:
        a = a.astype(complex)
    return a / m.get("d", 1)


def enc(a, d=1):
    a = np.asarray(a)
    return dict(s=list(a.shape),
                re=[float(x) for x in a.real.ravel() * d],
                im=[float(x) for x in a.imag.ravel() * d], d=d)


def ints(n, lo=-8, hi=8):
    return st.lists(st.integers(lo, hi), min_size=n, max_size=n)


SX = [[0, 1], [1, 0]]
SY = [[0, -1j], [1j, 0]]
SZ = [[1, 0], [0, -1]]


@st.composite
def herm(draw, n, lo=-8, hi=8, d=4):
    kind = draw(st.sampled_from(
        ["grid", "grid", "grid", "real", "diag", "degen", "near", "zero",
         "eye", "pauli", "sparse"]))
    if kind == "pauli":
        a = np.array(draw(st.sampled_from([SX, SY, SZ])), complex)
        while a.shape[0] < n and a.shape[0] * 2 <= n:
            b = np.array(draw(st.sampled_from([SX, SY, SZ, [[1, 0], [0, 1]]])),
                         complex)
            a = np.kron(a, b)
        if a.shape[0] != n:
            f = np.zeros((n, n), complex)
            f[: a.shape[0], : a.shape[0]] = a
            a = f
        return dict(s=[n, n], re=[float(x) for x in a.real.ravel()],
                    im=[float(x) for x in a.imag.ravel()], d=1)
    a = np.zeros((n, n), complex)
    if kind in ("grid", "real"):
        m = n * (n + 1) // 2
        v = draw(ints(m, lo, hi))
        w = draw(ints(n * (n - 1) // 2, lo, hi)) if kind == "grid" else None
        iu = np.triu_indices(n)
        a[iu] = v
        if w is not None and n > 1:
            iu1 = np.triu_indices(n, 1)
            a[iu1] += 1j * np.array(w)
        a = np.triu(a) + np.triu(a, 1).conj().T
    elif kind == "diag":
        a[np.diag_indices(n)] = draw(ints(n, lo, hi))
    elif kind == "degen":
        v = draw(ints(2, lo, hi))
        pick = draw(st.lists(st.integers(0, 1), min_size=n, max_size=n))
        a[np.diag_indices(n)] = [v[i] for i in pick]
    elif kind == "near":
        v = draw(st.integers(lo, hi))
        e = draw(st.lists(st.sampled_from(
            [0, 1e-12, 1e-11, 1e-10, 3e-10, 1e-9, 1e-8, 1e-7, 1e-6, 1e-4]),
            min_size=n, max_size=n))
        a[np.diag_indices(n)] = [v + x for x in e]
    elif kind == "eye":
        a[np.diag_indices(n)] = 4
    elif kind == "sparse":
        i = draw(st.integers(0, n - 1))
        j = draw(st.integers(0, n - 1))
        x = draw(st.integers(lo, hi))
        a[i, j] = x
        a[j, i] = x
    return dict(s=[n, n], re=[float(x) for x in a.real.ravel()],
                im=[float(x) for x in a.imag.ravel()], d=d)


@st.composite
def symm(draw, n, lo=-8, hi=8, d=8):
    """Real symmetric n x n."""
    kind = draw(st.sampled_from(["grid", "grid", "diag", "zero", "sparse"]))
    a = np.zeros((n, n))
    if kind == "grid":
        a[np.triu_indices(n)] = draw(ints(n * (n + 1) // 2, lo, hi))
        a = np.triu(a) + np.triu(a, 1).T
    elif kind == "diag":
        a[np.diag_indices(n)] = draw(ints(n, lo, hi))
    elif kind == "sparse":
        i = draw(st.integers(0, n - 1))
        j = draw(st.integers(0, n - 1))
        x = draw(st.integers(lo, hi))
        a[i, j] = a[j, i] = x
    return dict(s=[n, n], re=[float(x) for x in a.ravel()], im=[], d=d)


@st.composite
def general(draw, n, lo=-8, hi=8, d=8):
    """Any complex n x n matrix (non-normal, nilpotent, zero included)."""
    kind = draw(st.sampled_from(
        ["grid", "grid", "real", "nilp", "diag", "zero", "eye"]))
    a = np.zeros((n, n), complex)
    if kind in ("grid", "real"):
        a += np.array(draw(ints(n * n, lo, hi))).reshape(n, n)
        if kind == "grid":
            a += 1j * np.array(draw(ints(n * n, lo, hi))).reshape(n, n)
    elif kind == "nilp":
        a = np.triu(np.array(draw(ints(n * n, lo, hi)),
                             float).reshape(n, n), 1).astype(complex)
    elif kind == "diag":
        a[np.diag_indices(n)] = draw(ints(n, lo, hi))
    elif kind == "eye":
        a[np.diag_indices(n)] = 4
    return dict(s=[n, n], re=[float(x) for x in a.real.ravel()],
                im=[float(x) for x in a.imag.ravel()], d=d)


@st.composite
def ket(draw, n, normalised=True):
    v = dict(s=[n, 1], re=draw(ints(n, -4, 4)), im=draw(ints(n, -4, 4)), d=1)
    if normalised:
        return {"norm": v}
    if not any(v["re"]) and not any(v["im"]):
        v["re"][0] = 1
    return v


@st.composite
def unitary(draw, n):
    kind = draw(st.sampled_from(["exp", "exp", "perm", "eye"]))
    if kind == "exp":
        return {"u": draw(herm(n))}
    a = np.eye(n)
    if kind == "perm":
        p = draw(st.permutations(list(range(n))))
        a = a[list(p)]
    return enc(a)


def _num(x):
    return [float(v) for v in x]


@st.composite
def taus(draw, nts):
    """{'T': evo_time} for equal slots or a list of durations."""
    if draw(st.booleans()):
        return dict(T=draw(st.integers(1, 64)) / 16.0)
    w = draw(st.lists(st.integers(1, 16), min_size=nts, max_size=nts))
    if draw(st.integers(0, 7)) == 5:
        # nearly equal
        e = 2.0 ** -draw(st.integers(6, 26))
        return [w[0] / 16.0 + (v % 4) * e for v in w]
    return [v / 16.0 for v in w]


@st.composite
def amplitudes(draw, nts, nc, hi=16, d=8):
    kind = draw(st.sampled_from(["any", "any", "any", "any", "const", "zero",
                                 "near"]))
    if kind == "any":
        v = draw(ints(nts * nc, -hi, hi))
    elif kind == "near":
        # nearly equal
        c, e = draw(st.integers(-hi, hi)), 2.0 ** -draw(st.integers(3, 24))
        v = [c + x * e for x in draw(ints(nts * nc, -2, 2))]
    elif kind == "const":
        v = [draw(st.integers(-hi, hi))] * (nts * nc)
    else:
        v = [0] * (nts * nc)
    return [[v[k * nc + j] / d for j in range(nc)] for k in range(nts)]


def dims_for(n):
    opts = [[n]]
    if n == 4:
        opts.append([2, 2])
    if n == 6:
        opts += [[2, 3], [3, 2]]
    if n == 8:
        opts += [[2, 2, 2], [4, 2]]
    if n == 9:
        opts.append([3, 3])
    if n == 12:
        opts += [[3, 4], [2, 3, 2]]
    if n == 16:
        opts += [[4, 4], [2, 2, 2, 2]]
    if n > 16:
        opts += {18: [[2, 9]], 20: [[4, 5]], 24: [[2, 3, 4], [6, 4]],
                 32: [[2] * 5, [4, 8]], 36: [[6, 6]]}.get(n, [])
    return opts


STORE = st.sampled_from([False, True, False, True, "dia", "mix"])


@st.composite
def big_problem(draw, dyns=("UNIT", "GEN_MAT", "SYMPL"), state=None, fid=None,
                tdep=True, open_fid=False, max_nc=12, max_dim=16, max_ts=100,
                huge=False, kinds=("slots", "slots", "dim", "ctrls"), **_):
    """Many timeslots, many levels or many controls (filled from a seed)."""
    dyn = draw(st.sampled_from(list(dyns)))
    kind = draw(st.sampled_from(list(kinds)))
    n = draw(st.sampled_from({"UNIT": [2, 2, 3], "GEN_MAT": [2, 3, 4],
                              "SYMPL": [2, 4]}[dyn]))
    nts, nc = draw(st.integers(1, 4)), draw(st.integers(1, 2))
    if kind == "slots":
        nts = draw(st.integers(9, max_ts))
        if max_ts >= 100 and huge and draw(st.integers(0, 4)) == 0:
            nts = draw(st.integers(129, 300))
    elif kind == "ctrls":
        nc = min(max_nc, draw(st.sampled_from([4, 5, 6, 7, 8, 9, 10, 12])))
    else:
        n = draw(st.sampled_from([x for x in {
            "UNIT": [5, 6, 7, 8, 9, 10, 12, 16], "GEN_MAT": [5, 6, 8, 9, 16],
            "SYMPL": [6, 8, 10]}[dyn] if x <= max_dim] or [6]))
        if max_dim >= 16 and huge and dyn != "SYMPL" and draw(st.integers(0, 3)) == 0:
            n = draw(st.sampled_from([18, 20, 24, 32, 36]))
            nts, nc = min(nts, 2), 1
    r = np.random.RandomState(draw(st.integers(0, 99999)))
    sc = {"UNIT": 4.0, "GEN_MAT": 12.0, "SYMPL": 12.0}[dyn] * np.sqrt(n / 2)

    def gen():
        a = r.randint(-8, 9, (n, n)) / sc
        if dyn != "SYMPL":
            a = a + 1j * r.randint(-8, 9, (n, n)) / sc
        if r.randint(3) == 0:
            a = a * (r.rand(n, n) < 0.3)
        if dyn != "GEN_MAT":
            a = (a + a.conj().T) / 2
        return a

    td = tdep and draw(st.integers(0, 3)) == 0
    tc = tdep and draw(st.integers(0, 1 if kind == "ctrls" else 3)) == 0
    drift = [enc(gen()) for _ in range(nts if td else 1)]
    ctrls = [[enc(gen()) for _ in range(nc)] for _ in range(nts if tc else 1)]
    is_state = dyn != "SYMPL" and (
        draw(st.integers(0, 2)) == 0 if state is None else state)
    if dyn == "UNIT":
        f = draw(st.sampled_from(fid or ["PSU", "SU", "PSU", "SU", "TD"]))
    elif open_fid and fid is None and draw(st.integers(0, 3)) == 0:
        f = draw(st.sampled_from(["PSU", "SU"]))
    else:
        f = "TD"
    if is_state:
        ini, tgt = ({"norm": enc(r.randint(-4, 5, (n, 1)) +
                                 1j * r.randint(-4, 5, (n, 1)))}
                    for _ in range(2))
    else:
        key = {"UNIT": "u", "GEN_MAT": "x", "SYMPL": "sy"}[dyn]
        ini = enc(np.eye(n)) if draw(st.booleans()) else {key: enc(gen())}
        tgt = {key: enc(gen())}
    T = draw(st.integers(4, 32)) / 8.0
    if dyn != "UNIT":
        T = T / 2
    tau = dict(T=T)
    if draw(st.booleans()):
        w = r.randint(1, 17, nts)
        tau = [float(x) for x in w * T / w.sum()]
    amps = (r.randint(-16, 17, (nts, nc)) / 8.0 / np.sqrt(nc)).tolist()
    p = dict(dyn=dyn, n=n, nts=nts, nc=nc, drift=drift, td=td, ctrls=ctrls,
             tc=tc, initial=ini, target=tgt, state=is_state, fid=f, tau=tau,
             amps=amps, dims=draw(st.sampled_from(dims_for(n))),
             csr=draw(STORE), big=kind)
    if f == "TD" and draw(st.integers(0, 3)) == 0:
        p["scale"] = draw(st.sampled_from([1.0, 0.5, 0.125, 3.0]))
    return p


@st.composite
def problem(draw, dyns=("UNIT", "GEN_MAT", "SYMPL"), max_ts=5, max_nc=3,
            dims=(2, 2, 3, 4), state=None, fid=None, tdep=True,
            min_ts=1, hermitian_states=False, open_fid=False, units=False,
            big=0, big_kw={}):
    """A full control problem (one of `big` is big_problem())."""
    if big and draw(st.integers(0, big - 1)) == big // 2:
        return draw(big_problem(dyns, state=state, fid=fid, tdep=tdep,
                                open_fid=open_fid, **big_kw))
    dyn = draw(st.sampled_from(list(dyns)))
    if dyn == "SYMPL":
        n = draw(st.sampled_from([2, 4]))
    elif dyn == "GEN_MAT":
        n = draw(st.sampled_from([d for d in dims if d <= 4] or [2]))
    else:
        n = draw(st.sampled_from(list(dims)))
    nts = draw(st.integers(min_ts, max_ts))
    nc = draw(st.integers(1, max_nc))
    gen = {"UNIT": herm, "GEN_MAT": general, "SYMPL": symm}[dyn]
    td = tdep and draw(st.integers(0, 3)) == 0
    tc = tdep and draw(st.integers(0, 3)) == 0
    drift = [draw(gen(n)) for _ in range(nts if td else 1)]
    ctrls = [[draw(gen(n)) for _ in range(nc)]
             for _ in range(nts if tc else 1)]
    if state is None:
        is_state = draw(st.integers(0, 2)) == 0 and dyn != "SYMPL"
    else:
        is_state = state and dyn != "SYMPL"
    if fid is None:
        if dyn == "UNIT":
            f = draw(st.sampled_from(["PSU", "SU", "PSU", "SU", "TD"]))
        elif open_fid and draw(st.integers(0, 3)) == 0:
            f = draw(st.sampled_from(["PSU", "SU"]))
        else:
            f = "TD"
    else:
        f = draw(st.sampled_from(list(fid)))
        if dyn != "UNIT" and f in ("PSU", "SU"):
            f = "TD"
    if is_state:
        ini, tgt = draw(ket(n)), draw(ket(n))
    elif dyn == "UNIT":
        ini = draw(st.one_of(st.just(enc(np.eye(n))), unitary(n)))
        tgt = draw(unitary(n))
    elif dyn == "SYMPL":
        ini = draw(st.one_of(st.just(enc(np.eye(n))),
                             symm(n).map(lambda m: {"sy": m})))
        tgt = {"sy": draw(symm(n))}
    else:
        ini = draw(st.one_of(st.just(enc(np.eye(n))), general(n)))
        tgt = draw(st.one_of(general(n).map(lambda m: {"x": m}),
                             st.just(enc(np.eye(n)))))
    p = dict(dyn=dyn, n=n, nts=nts, nc=nc, drift=drift, td=td, ctrls=ctrls,
             tc=tc, initial=ini, target=tgt, state=is_state, fid=f,
             tau=draw(taus(nts)), amps=draw(amplitudes(nts, nc)),
             dims=draw(st.sampled_from(dims_for(n))),
             csr=draw(STORE))
    if f == "TD" and draw(st.integers(0, 3)) == 0:
        p["scale"] = draw(st.sampled_from([1.0, 0.5, 0.125, 3.0]))
    if units and draw(st.integers(0, 5)) == 0:
        # amplitudes and times in other units (exponents of two)
        p["units"] = [draw(st.sampled_from([0, -10, 10, 20])),
                      draw(st.sampled_from([0, -6, -20, 10, 30]))]
        no_tiny(p)
    return p


def no_tiny(p):
    """qutip drops entries of an operator that are tiny in the units it is
    given in."""
    if p["units"][1] < max(0, p["units"][0]):
        for m in p["drift"] + [m for row in p["ctrls"] for m in row]:
            m["re"] = [x if abs(x) > 1e-3 else 0.0 for x in m["re"]]


EXACT_PROPS = {"UNIT": ["DEF", "DIAG", "FRECHET", "AUG_MAT"],
               "GEN_MAT": ["DEF", "FRECHET", "AUG_MAT"],
               "SYMPL": ["DEF", "FRECHET", "AUG_MAT"]}


FACTORS = [1.0 + 2.0 ** -11, 1.0 - 2.0 ** -12, 1.0 + 2.0 ** -20, 0.5, 3.0,
           2.0 ** -10]


@st.composite
def off_norm(draw, p):
    """States whose norm is not one, or nearly one."""
    for k in ("initial", "target"):
        if draw(st.booleans()):
            p[k] = {"by": p[k], "f": draw(st.sampled_from(FACTORS))}
    return p


@st.composite
def config(draw, p=None, sparse=False):
    """Memory / data type / caching options; None values are left unset."""
    c = dict(
        mem=draw(st.sampled_from([0, 0, 0, 1])),
        dtype=draw(st.sampled_from([None, None, "nd", "Q"])),
        cpd=draw(st.sampled_from([None, None, True, False])),
        cpg=draw(st.sampled_from([None, None, True, False])),
        cea=draw(st.sampled_from([None, None, True, False])),
    )
    return c


@st.composite
def problem_cfg(draw, approx=False, **kw):
    p = draw(problem(**kw))
    p["cfg"] = draw(config())
    p["prop"] = draw(st.sampled_from(EXACT_PROPS[p["dyn"]]))
    if approx and draw(st.integers(0, 4)) == 0:
        p["prop"] = "APPROX"
    return p
